# How each property is decided: one paragraph for DESIGN.md
HOW = {
'C01': 'Every public operation of LogSystem, Listener, stream listener and Logger, and the logging thread, is run from an arbitrary state; each access to shared memory (a cell, or a standard container as one object) is recorded with the locks held, its context (initial, API, construction/destruction, thread) and whether it is atomic. Two accesses of contexts that can overlap, one of them a write, must both be atomic or share a lock. The thread counts as running from the spawn event to the join event of a path; a fresh object is private until it is stored where others see it. Non-reentrant libc calls on these paths are rejected. Oracle: the C++ definition of a data race.',
'C02': 'Per path: locks are released on every exit, exceptional ones included; no lock is taken twice; no blocking call (join, wait on another mutex) or listener callback happens while holding a lock that the other side needs; the union of all "takes B while holding A" edges over all entries must be acyclic.',
'C03': 'The stop flag is inferred (what stop() writes and the thread reads). Obligations: look/create/record of the thread under one hold of one lock; the request is set to "not ended" before the thread starts; stop requests under the mutex of the wait predicate, then wakes, then joins, then forgets; the thread waits only while nothing is queued and no stop is requested; every queueing wakes it; after a stop it does not take another message; destruction stops first, then frees every queued and pooled message exactly once.',
'C04': 'Typestate of each message (pooled, owned by the logging call, queued, owned by the thread): one message per call, filled with exactly the five given values while owned, queued once and not touched afterwards; taken from the queue only when non-empty, in one hold of the lock; delivered before it is given back; given back or deleted exactly once on every path.',
'C05': 'Every growth of the pool is preceded in the same hold of the lock by a test of its size against the limit; every counter changes exactly with the event it counts (allocation outside the pool, deletion, message taken) and is written by one side only; getDiags() reports each figure from its own source (0 to 3 listeners).',
'C06': 'The end of the queue at which messages are put and the end at which they are taken must differ. One round of the thread is run over every list of up to 2 active and 2 waiting listeners (thorough: 4 in total): each is called once, in registration order, new ones behind; adoption happens after a message was taken and in one hold of the lock.',
'C07': 'For every abstract path of one round the set of listeners called is compared with the predicate of the statement over the terms the path decided (enabled, detached, level, empty category/filter, whole regular expression match); LogSystem::log filters by its level; detached listeners leave the list and nobody else does.',
'C08': 'Witness: set a filter. The regular expression is compiled from exactly the given text before anything visible changes; on the exceptional edge nothing has changed and InvalidCategory leaves the function; both text and expression are exchanged in one hold of the lock under which they are read.',
'C09': 'The output operations of each path are rendered (formats, widths and fills included) into a term text and matched with the documented line; stream lookup, writing and flushing are in one hold of the lock; the setters take that lock, and keep or give up ownership as documented.',
'C10': 'All state that composition functions touch must be thread-local or constant; setters set what they are given; commit sends exactly one message made of the values of the thread and then clears text, temporary category, stream format and state.',
'C11': 'Witness statements of every macro (single line, block, conditional, computed level) are compiled under three compile-time limits; on each path, a level above a limit has no effect at all, and an enabled one renders its parts in order, sends once to the logger, and leaves nothing behind; the exit of a block by exception sends or discards as stated.',
'C12': 'Sequences of up to three calls (filter, filter, clear, and rejected filters) from arbitrary levels: which listeners exist, their levels and filters, and the level of the logger after each step.',
'C13': 'Concrete page lists (1 to 3 pages, thorough 4) with symbolic page size >= 1 and symbolic fills; every operation is run on every placement of the cursor; the resulting sequence of element terms must be the specified one and the shape invariant (full below the top, empty above, cursor on the top page) must hold, for success and after copying.',
'C14': 'Every read or write of the state of a stack (pages, cursor, counters) must be under that stack\'s own lock, which must be held across the whole operation; locks are balanced on exceptional exits; a two-stack operation reads the source under the lock of the source; no self-locking.',
'C15': 'All relative positions of iterator and top (same page, below, above; before, at, behind) are enumerated; get/sync must refuse or return exactly the element; lifetimes: copies count, shrink requests wait until the last one goes and are carried out once.',
'C16': 'Each allocation and element construction has an exceptional edge; on those the shape and content must be the old ones and the lock released. Space is reserved for a whole page before elements are put, on empty pages only, so that no element moves.',
'C17': 'Each operator of each iterator kind is run at a symbolic position on each page; the resulting position is compared with index arithmetic, a following * must designate an element of the stack (no position outside of a page), and begin/end/== agree.',
'C18': 'Provenance: each argument must end up with the element at its documented depth, for symbolic depth and fill across page boundaries; distribute() with counting iterators; from_top.',
'C20': 'For instances with spin counts 0, 1, 2 and 7: every return of lock() has taken the futex by a single atomic read-modify-write that saw it free, with acquire order; unlock stores the free value once with release order; no other write. Every atomic access may see any value, so all interleavings are covered.',
'C21': 'Same technique for the owner word and the count: identities are thread-local, unique (one atomic increment) and assigned once; the count is touched by the owner only and changes by exactly one; the last unlock frees with release order, others do not.',
'C22': 'The abstract states of the waiting loop are explored until they repeat; the number of failed attempts between yields is counted on every cycle and compared with the spin count.',
'C23': 'Each primitive is one atomic instruction (or a compare-exchange loop that applies once); stored value and result are compared symbolically with the documentation.',
'C24': 'From an arbitrary item of each kind, each operation (construction, copy, assignment, self-assignment, destruction, throwing allocation) is run with a ledger of allocations: payloads are never shared, leaked, released twice or used afterwards.',
'C25': 'Construct-then-get for every type: the result term must be the value itself after exact casts; unsupported types are refused with an exception.',
'C27': 'Each conversion for an unknown value of each kind: the result term is compared with the documented one; no exception passes a noexcept boundary (allocation failure excepted).',
'C28': 'Twenty lifetimes with symbolic lengths: each write stays within the buffer, the text reported is the text given, buffers are released once, and moved objects can be used.',
'C29': 'The instance is built under a one-time guard (the C++ static guard or call_once), never replaced, and each accessor returns it.',
'C30': 'run() with the virtual steps replaced by every outcome (passes, fails, writes on stderr, throws std or other exceptions, combinations): verdict, description and steps against the decision table of the statement.',
'C31': 'Stream buffers as objects exchanged by rdbuf(): where each output of a step goes, what capturedOut/Err return, and which buffers, format and error state the streams have afterwards, on all paths of one and of consecutive runs.',
'C32': 'Whole runs with names and texts that need escaping: the text written into the report is folded to a constant per path, parsed with an XML parser, and every attribute and failure compared with the events of the path.',
'C33': 'main() on concrete command lines (all options, missing values, invalid numbers, unknown names, combinations) and on a symbolic argument: what is performed, refused, reported.',
'C34': 'Witness tests instantiate every macro with opaque operands (comparison results unknown, evaluation counted, throwing variants): the decision, the number of evaluations of the expected value, text, file, line, and that a failed check leaves the test (EXPECT macros).',
'C35': 'Every header alone, twice, together with all the others, with and without -DNDEBUG: must compile; two sources including everything must link (no strong definitions, from IR linkage); layouts from debug information agree between variants and with the library; everything declared non-inline is defined in the library.',
'C36': 'Whole runs at each verbosity for each outcome: the text before, between and after test cases is rendered and compared with the level\'s promises.',
'C37': 'The text after the last test case must name each failed test case once, and no other; per-component lines agree with outcomes.',
'C38': 'Fields of each class from debug information against memory written on each abstract path of each constructor; for locals, clang\'s dataflow warnings (-Wuninitialized, -Wsometimes-uninitialized, -Wconditional-uninitialized).',
'C39': 'Whole runs over suites of up to 3 cases with every outcome, with and without selection: performed once each, steps in order, exit status, no exception escapes, all elements of the suite reached.',
'C40': 'Clock functions as linear forms of seconds and microseconds; whole runs with an injective sequence of clock readings, so that each printed time identifies the pair of readings it came from.',
'C41': 'Whole runs of suites of up to five test cases (names that are prefixes of each other, interleaved components) added in ten orders, and of three selections: the sequence of bodies performed must be the one sorted by component and name.',
'C42': 'The static initialisers of two witness source files (globals at their constant values) are run in both orders, then main(), with one test case at a time that may fail: bodies, objects, fixture data, names on the screen, exit status; the same through the main() of the library and for argument counts smaller than the array.',
'C43': 'Suites are performed twice in one abstract run (all, a selection, one by name, with a test case, a selection or a verbosity added in between), with every outcome in both; the tests performed, status, output and XML text of the last run are looked up in the table of the same run on a fresh suite.',
'C44': 'Nine kinds (the six of the engine and one made from each base): each operation called through a pointer to the base class; effects and results against what the kind says of itself; conversions of new values and of their clones must be constants of the null value, with every allocation released once.',
'C45': 'A hundred and twenty witness programs on top of all public headers: copies, moves and assignments of thirteen types that must not compile; copies of three value types, virtual destructors of six bases and non-throwing destructors that must.',
}
