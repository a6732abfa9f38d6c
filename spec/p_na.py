NA('C50', 'A contended futex is fair and every waiter eventually gets it',
   'A thread that waits for a futex gets it after a bounded number of releases, however many other threads compete for it.',
   'interleavings', 'all schedules of any number of competing threads',
   'A test samples some schedules of one scheduler on one machine.',
   'src/include/falcon/futex.h', [('lock()', 'src/include/falcon/futex.h: Futex::lock, RFutex::lock')],
   'Progress of one waiter depends on the scheduler and on the memory system at run time; the lock is a test-and-set lock with yields, for which no static argument over the source can bound the wait (and which does not promise fairness). The static part, when the waiter yields, is claimed as C22.')
NA('C51', 'Logging does not hold up the threads that log',
   'A log call takes a bounded time, however slow the listeners are and however many threads log, and the queue of messages stays bounded.',
   'interleavings inputs', 'all loads and speeds of listeners',
   'Load and timing of a test machine do not carry over to others.',
   'src/engine/logsystem.cpp', [('queue', 'src/engine/logsystem.cpp: LogSystem::log, loggingThread')],
   'Times and queue lengths are run-time quantities that depend on the relative speed of threads; the queue is unbounded by design. The static part, that no listener runs under a lock that log() takes, is claimed as C02.')
NA('C52', 'Time stamps and elapsed times agree with the real time',
   'The time stamps of log lines and the times reported for tests agree with the real time up to the resolution of the clock.',
   'inputs environment', 'all clock adjustments and time zones',
   'A test runs in one time zone, at one moment, without clock adjustments.',
   'src/engine/logstream.cpp src/fut/marktime-unix.c++', [('stamp', 'src/engine/logstream.cpp: onMessage'), ('clock', 'src/fut/marktime-unix.c++')],
   'Accuracy of the system clock and its adjustment at run time cannot be read off the source. The arithmetic on clock readings is claimed as C40, the format of the stamp as C09.')
NA('C53', 'Texts of numbers convert back to the same number',
   'The text of an item that holds a number, converted back, gives the same number for every value.',
   'inputs', 'all values of floating point and big numbers',
   'There are 2^64 doubles; a test samples a few.',
   'src/include/falcon/engine/floathandler.h src/include/falcon/engine/bignumhandler.h', [('toString', 'src/include/falcon/engine/floathandler.h: FloatHandler::toString')],
   'It depends on the rounding of the formatting functions of the standard library and of boost::multiprecision for the value at hand, which the analysis treats as opaque; the interface does not promise it either (six digits are the default). That a conversion follows the kind of the item is claimed as C27.')
NA('C54', 'The Windows variants behave like the others',
   'Atomic operations and clock functions have the same results on Windows as elsewhere.',
   'configurations inputs', 'all configurations of the build',
   'The tests run on one system only.',
   'src/include/falcon/atomic_vc.h src/fut/marktime-win.c++', [('atomics', 'src/include/falcon/atomic_vc.h'), ('clock', 'src/fut/marktime-win.c++')],
   'The sources need Windows headers and intrinsics, which are not installed here and cannot be fetched: they cannot be compiled to the representation that is analysed.')
NA('C55', 'Compiling a source text gives a code object that means the same',
   'Compiler::compile() gives, for every source, a code object that represents the whole of it, or reports an error.',
   'inputs', 'all source texts',
   'Sources are unbounded.',
   'src/engine/compiler.cpp src/include/falcon/engine/compiler.h', [('compile', 'src/engine/compiler.cpp: Compiler::compile')],
   'The compiler is a placeholder that keeps the first word of the input: there is no meaning of a source in this code base to compare with. Memory safety of the source text object is claimed as C28.')
