L, LH = 'src/engine/logsystem.cpp', 'src/include/falcon/logsystem.h'
G, GH = 'src/engine/logger.cpp', 'src/include/falcon/logger.h'
LS, LSH, LPH = 'src/engine/logstream.cpp', 'src/include/falcon/logstream.h', 'src/include/falcon/logproxy.h'
SYS = L + ' ' + LH
ALL = ' '.join((L, LH, G, GH, LS, LSH, LPH))
P('C01', 'The log system has no data races',
  'Threads that log, set levels, categories, enabled and detached flags or streams, add listeners, read diagnostics, and start and stop the system may do so at the same time as each other and as the logging thread: no two of these access the same location at the same time, one of them writing, unless both accesses are atomic or inside one common lock. '
  'Composing a message uses thread-private state only, and no C library function with shared static storage is used. '
  'Nothing the logging thread uses is initialised after it was started or destroyed before it was joined.',
  'schedules', 'every pair of operations on one log system, listener or stream listener, on every path of each; hence every interleaving',
  'A race shows under rare interleavings only and often without any visible effect; the tests assert on results of a few threads.',
  ALL, [('mtxMessage / mtxPool / mtxListeners / mtxThread, atomics', L), ('mtxCategory, m_level, m_enabled, m_detached', LH), ('mtxStream', LSH)],
  'lockset analysis over all abstract paths with the set of operation pairs that can overlap',
  'Construction of an object (before it is published) and its destruction by the user are sequential by contract. The category filter helper of Logger (categoryFilter, clearFilter) is documented as not thread-safe and is excluded.')
P('C02', 'Logging cannot deadlock',
  'No operation of the log system, its listeners or the logging thread keeps a lock when it returns or throws, takes a lock it already holds, or nests locks in an order that can form a cycle with another operation, waiting for the logging thread counting as waiting for every lock that thread takes. '
  'Waiting for messages releases every lock held. '
  'Listeners are called, and dismissed listeners destroyed, while the system holds none of its locks that other operations need, so that a listener may itself use the log system.',
  'schedules faults', 'every path of every operation, exceptional exits included; every combination of operations on several threads',
  'A deadlock needs two threads at two particular points; the tests would have to hit them.',
  SYS + ' ' + LS + ' ' + LSH, [('lock_guard / unique_lock / wait', L)],
  'lock-order graph and lock balance over all abstract paths',
  'stop() joins while holding the start/stop lock by design; calling start() or stop() from a listener is outside the contract.')
P('C03', 'Starting and stopping: one logging thread, no lost wake-up, no use after end',
  'start() starts exactly one thread if none runs and has no effect otherwise, also when called simultaneously; stop() requests the end, wakes the thread, waits for it and releases it, and has no effect if none runs; a stopped system can be started again and then handles messages. '
  'Constructing with or without a start request starts one thread or none. '
  'The logging thread goes to sleep only when there is neither message nor request and every new message or request wakes it; it ends on request only, and destruction first ends it, then frees every message once.',
  'schedules histories', 'every path of start, stop, log, construction and destruction against the logging thread, i.e. every interleaving and sequence of them',
  'A lost wake-up or a second thread needs one particular interleaving; tests with sleeps do not hit it.',
  SYS, [('start / stop / loggingThread / ~LogSystem', L)],
  'check-and-act and signal/wait protocol analysis over abstract paths (typestate of the thread handle and of the wait predicate)',
  'Messages still queued at stop() are not delivered (by design) until the next start.')
P('C04', 'Every logged message is delivered once, intact, and never shared',
  'A message passed by log(file, line, level, category, text) carries exactly these five values when it is queued, whatever message object was reused for it; each such call queues exactly one message that no other thread can be using. '
  'From queueing on only the logging thread uses it, gives this message (and no other) to the listeners and then either returns it to the pool or frees it, exactly once. '
  'No message is lost, handled twice, leaked or used after it was given back.',
  'histories schedules', 'every path of log() and of the logging thread, with any content of the pool and of the queue; every interleaving of producers',
  'Reuse of pooled messages and ownership errors surface only after many messages or under particular interleavings.',
  SYS, [('allocateMsg / disposeMsg / log / loggingThread', L)],
  'ownership typestate of messages over abstract paths (free, owned, queued, owned by the thread, given back)',
  'Running out of memory while a message is filled is not covered. Pending messages are dropped at destruction.')
P('C05', 'The message pool is bounded and the diagnostics count truly',
  'A new log system has a pool of MESSAGE_POOL_THRESHOLD messages; the pool never exceeds that number: a handled message returns to it if there is room and is freed otherwise, whatever threads are working. '
  'getDiags() reports the messages created outside the pool, those freed instead of returned, those received by the logging thread, the highest length the queue ever had, the present size of the pool, and the numbers of waiting, active and enabled active listeners. '
  'Each counter changes exactly when the event it counts takes place and nothing else changes it.',
  'histories schedules', 'every path of construction, logging, the logging thread and getDiags; any number of messages',
  'The bound is only reached with more messages in flight than the pool holds; counters are compared in a few runs with few messages.',
  SYS, [('MESSAGE_POOL_THRESHOLD, m_unpooled, m_destroyed, m_maxMsgQueueSize, m_msgReceived', L), ('getDiags', L)],
  'guarded-effect analysis: lock-protected size test before each growth of the pool; balance of each counter with its events on every abstract path',
  'getDiags is analysed with 0 to 3 active listeners.')
P('C06', 'Messages are delivered in order to the listeners in order of registration',
  'Messages are delivered in the order in which they were queued. '
  'A listener that was added before a message was queued gets that message, also if it was added while the logging thread was waiting; none that is waiting is lost when listeners are adopted, and no registration is changed otherwise. '
  'For each message every listener of the list that is due is called once, in the order of registration.',
  'schedules histories', 'every path of log(), addListener() and a round of the logging thread, for 0 to 2 active and 0 to 2 waiting listeners',
  'Adoption in the wrong place or in two locked steps loses a listener only when it is added at that moment.',
  SYS, [('addListener / processNewListeners / sendMessageToListeners / cleanupTerminatedListeners', L)],
  'queue-end analysis and abstract execution of one round of the logging thread over lists of listeners of small shape',
  'Lists of up to two active and two waiting listeners stand for longer ones.')
P('C07', 'A message reaches exactly the listeners it is meant for',
  'A listener is called for a message if and only if it is enabled, not detached, its level is at least that of the message and its category filter admits the category; the filter admits everything when it is empty or the category of the message is empty, and otherwise exactly the categories that match the whole regular expression. '
  'log() with the single values drops the message exactly if its level is above the level of the log system, while a ready Message is always queued. '
  'Detached listeners leave the list, all of them and no others, and setting one property of a listener leaves the others as they are; a new listener is enabled, attached, at level TRACE and without filter.',
  'inputs schedules', 'every level of message, system and listener, every combination of enabled, detached and category outcome, 0 to 2 listeners',
  'The decision combines five conditions per listener; tests try a few combinations on one listener.',
  SYS, [('sendMessageToListeners / checkCategory / cleanupTerminatedListeners / log', L), ('Listener setters', LH)],
  'decision table computed over abstract paths and compared with the specified predicate',
  'A listener that is detached while a message is on its way to it may still get that message.')
P('C08', 'Changing a category filter is all or nothing',
  'Listener::category(filter) replaces the text of the filter and its compiled form together, in one locked step, so that no message is judged with a mixture. '
  'An invalid regular expression is reported by throwing LogSystem::InvalidCategory and leaves the listener with the filter it had. '
  'Reading or applying a filter does not change it and looks at both forms in one locked step.',
  'faults schedules', 'every filter text, valid or not; every interleaving with the logging thread',
  'The old filter after a rejected one, and the window between the two assignments, are not looked at by any test.',
  SYS, [('Listener::category', LH), ('Listener::checkCategory', L)],
  'exception-aware effect ordering and lock-region analysis',
  'std::regex throws regex_error exactly for invalid filters (trusted).')
P('C09', 'Stream listeners write one complete line per message on the right stream',
  'For each message a stream listener writes one line "YYYY-MM-DD HH:MM:SS [LEVEL] (category) file:line text": local time with zero-padded two-digit parts, the four-letter level name or ????, the category only if it is not empty, the file without its directories. '
  'The line is written whole and flushed under the lock under which the stream is exchanged. '
  'own() and share() keep the given stream alive and writeOn() does not take it over; the next line goes to the last stream given; a new listener writes into a sink of its own, and a proxy listener passes each message to its target.',
  'inputs schedules', 'every level, category, file path and date; every interleaving of lines and stream changes',
  'Interleaved half lines and output on a replaced stream need particular timing; formats are tested with one date and path.',
  ' '.join((LS, LSH, LPH, L)), [('LogStreamListener::onMessage', LS), ('own / share / writeOn', LSH), ('LogProxyListener::onMessage', LPH), ('levelToString', L)],
  'symbolic rendering of the output operations on every abstract path; lock regions and ownership effects',
  'The exact punctuation of the line follows the code of the original. Null streams and texts with embedded NULs are not covered.')
P('C10', 'Each thread composes its own message and starts every message clean',
  'File, line, level, text, category and temporary category of a message being composed belong to the calling thread alone. '
  'Logger::commit() sends exactly one message with the file, line and level set and the whole text composed since the previous message, under the temporary category if there is a non-empty one and else under the category of the thread. '
  'Afterwards the text, the temporary category and any formatting state of the stream are reset, while the category of the thread stays until it is set anew.',
  'histories schedules', 'every content of the thread state, every sequence of messages, every thread',
  'State leaking from one message into the next, or between threads, shows only in particular sequences.',
  G + ' ' + GH, [('thread_local members, commit, readyStream, setters', GH)],
  'effect analysis of the composition functions with storage class of all state they touch',
  'Logging from inside the evaluation of an operand of another log statement on the same thread is not covered.')
P('C11', 'Log statements render and send only when their level is enabled',
  'LOG(level) statements and LOG_BLOCK(level) blocks send one message with the level, file and line of the statement and with their parts in order if the level is neither above the level of the logger nor above FALCON_MIN_LOG_LEVEL; otherwise they render nothing, send nothing and leave nothing behind. '
  'LOG_CAT applies to its statement only, and a block that is left by break or by an exception sends nothing and leaves nothing to the next message. '
  'Each named form (LOG_CRIT to LOG_TRC, LOG_BLOCK_CRIT to LOG_BLOCK_TRC) uses its own level, and LOG_CATEGORY sets the category of the thread unless all logs are compiled out.',
  'inputs', 'every level of statement and logger, compile-time limits TRACE, WARN and disabled, statements of one to three parts, with and without LOG_CAT, blocks left normally, by break and by exception',
  'Side effects of filtered statements and text left by abandoned blocks appear only in the next, unrelated message.',
  GH, [('AutoEnd / BlockEnd / operator<< / LOG, LOG_BLOCK, LOG_CATEGORY macros', GH)],
  'decision table over abstract paths of witness statements compiled under several compile-time limits',
  'Compile-time limits other than the three are assumed to behave alike. The arguments of a filtered single-line statement may still be evaluated (only rendering is excluded).')
P('C12', 'The category filter helper adds one filter and restores the previous state',
  'Logger::categoryFilter(category, l) (l is TRACE if not given) adds one enabled listener with this category and level that passes messages to the default listener, raises the level of the logger to l if it is lower, and in that case lowers the default listener to the previous level of the logger if it was higher. '
  'clearFilter() detaches that listener and restores both levels as they were before the filter; it has no effect if no filter is active. '
  'At most one filter is active: a new one replaces the previous one as if that had been cleared first, and an invalid category throws InvalidCategory and changes nothing.',
  'histories inputs', 'every pair of levels of logger and default listener, every filter level; sequences of setting, replacing, rejecting and clearing filters',
  'Restoring depends on the order of saving and changing two levels over a sequence of calls; the tests use one.',
  G + ' ' + GH + ' ' + LPH, [('categoryFilter / clearFilter', G)],
  'abstract runs of call sequences from arbitrary levels, relating the levels observed after each step',
  'Sequences of up to three calls. Concurrent use of these functions is undefined by documentation.')
