F='src/include/falcon/futex.h'
P('C20', 'A futex never admits two owners and publishes what its owner wrote',
  'A thread that returns from locking a futex got it from a state in which nobody owned it, by one indivisible step of that call, and at that point sees everything the previous owner wrote before unlocking. '
  'Unlocking by the owner always makes the futex free, and asking whether it is locked tells its current state without changing it. '
  'Neither a failed attempt, a spurious failure, nor any spin count lets a second thread in or loses the lock.',
  'schedules configurations', 'every interleaving of lock/unlock/isLocked calls of any number of threads, every spin count class (0, 1, 2, more), every result of each atomic step',
  'The futex tests run one schedule per execution on x86, where missing ordering and most races do not show; only a fact about every path of the primitive settles it.',
  F, [('Futex::lock / unlock / isLocked compare-exchange protocol', F)],
  'path-sensitive abstract interpretation of the lock protocol over compiler IR (typestate of the ownership word)',
  'Instances with spin counts 0, 1, 2 and 7; each atomic access may see any value, so the verdict covers every interleaving; progress and fairness are not covered.')
P('C21', 'A recursive futex is held by one thread, for as long as it locked it',
  'A recursive futex is acquired only when free or already held by the calling thread, each lock adds one level and each unlock by the owner removes one, and it becomes free exactly when the last level is removed, publishing the writes of the owner; unlocking a free one changes nothing. '
  'Every thread that locks has an identity of its own which is never the mark of a free futex and never changes. '
  'Queries do not modify it: it is locked when some thread holds it, and a thread is its owner only if it is the one holding it.',
  'schedules histories', 'every interleaving of lock/unlock/query calls by threads that unlock only what they locked (or what nobody locked), any nesting depth and any number of threads (below the range of the identity counter)',
  'The tests use few threads and shallow nesting; identity reuse, ordering and steals depend on schedules and histories they never run.',
  F + ' src/engine/futex.cpp', [('RFutex::lock / unlock / isLocked / isOwner, thread identity', F), ('identity counter and thread-local identity', 'src/engine/futex.cpp')],
  'path-sensitive abstract interpretation of the ownership protocol over compiler IR',
  'Each atomic access may see any value. Unlocking by a thread that is not the owner is outside the statement; wrap-around of the 32-bit identity counter is not covered.')
P('C22', 'A contended futex yields exactly as its spin count says',
  'While it waits, a thread locking a futex with a positive spin count gives up its time slice after exactly that many failed attempts, again and again for as long as it waits, and never earlier. '
  'With a spin count of zero it spins without ever yielding.',
  'schedules configurations', 'every sequence of failed and successful acquisition attempts, for spin counts 0, 1, 2 and 7',
  'Tests cannot observe the yields, nor force a chosen number of failed attempts.',
  F, [('Futex::lock contention loop', F)],
  'finite-state exploration of the abstract loop states of the lock (static, over compiler IR)',
  'The abstract state of the waiting loop is finite and explored to repetition, so the number of attempts is unbounded.')
A='src/include/falcon/atomic_gcc.h'
P('C23', 'Atomic integer primitives are one indivisible step with the documented result',
  'Increment, decrement, add, set, exchange, compare-and-swap, xor, and, or of an atomic integer change it in exactly one indivisible step to the function of the value it had at that step, and fetch does not change it. '
  'Increment, decrement and add return the new value, exchange and the bit operations the previous one, and compare-and-swap returns whether it stored. '
  'Compare-and-swap stores the new value exactly when the current one equals the expected one, and each primitive is ordered with the memory accesses around it (none is relaxed).',
  'schedules inputs', 'every interleaving and every operand, for the primitives of the non-Windows platforms',
  'No test uses these primitives concurrently; a split read and write passes any single-threaded test.',
  A + ' src/include/falcon/atomic.h', [('atomicInc … atomicCAS on GCC builtins', A)],
  'abstract interpretation of each primitive over compiler IR: one atomic write per path, symbolic comparison of value and result',
  'The Windows header is not compiled here and is not covered.')
