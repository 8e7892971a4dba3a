P('S05', 'A rolling log is one sequence of whole messages in numbered files',
  'A rolling file sink writes each message whole into one of the files base_NN.ext (number before the extension, zero-padded to the digits of the largest number), taking the lowest free number first and then upwards; no file exceeds the size limit unless one message alone does, existing files are never touched unless all numbers are taken (then the last is emptied and reused). '
  'Read in order the files are the messages in order, and hold everything flushed when the process ends at any point; a sink whose limits are invalid is refused and creates nothing.',
  ['inputs', 'histories', 'crash_points'], 'every sequence of message sizes around the limit, flushes, reopenings and pre-existing files up to the depth; every crash point and every failing file call of the histories',
  'Which file a message goes to depends on sizes, on earlier runs and on failures; the tests roll a few times with one message size.',
  ['sinks/rolling_file_sink.h', 'base/file_base.h', 'base/os.h'], [('roll before the message that would not fit', 'sinks/rolling_file_sink.h')], FLT, QN, ['contents of the files'])
P('S06', 'A file sink appends every message and keeps what was flushed',
  'The file of a basic file sink holds its old content (or nothing, if truncation was requested) followed by every message in order, each once, and nothing already in the file, written by this sink or by another appender, is overwritten. '
  'Once flush() has returned, the sink is closed, or a message at the flush level has been logged, everything before it is in the file even if the process ends at any later point; then only the end of the file may be missing.',
  ['inputs', 'histories', 'crash_points'], 'every sequence of messages of lengths around the buffer sizes, flushes, closings, reopenings and foreign appends up to the depth; process end at every system call',
  'The tests write and read back once; what is on disk at an arbitrary moment is not observed.',
  ['sinks/basic_file_sink.h', 'base/file_base.h'], [('append mode and flush', 'base/file_base.h')], FLT, QN + 'Process end is modelled as loss of everything not handed to the operating system; power loss is outside (the library never calls fsync). ', ['contents of the file'])
P('S07', 'A failure while logging is reported and affects nothing else',
  'When a sink, a formatter, the formatting of an argument, a stream or a file operation fails with a standard exception or an error while logging, flushing or closing, the failure is reported on stderr with its cause under consecutive numbers, never reaches the caller and never keeps other sinks, loggers or messages from being served; once the cause is gone everything works again. '
  'A file that cannot be opened is reported to whoever creates the sink, and no logger is registered.',
  ['fault_sequences', 'histories', 'schedules'], 'every placement of up to two failing calls or throwing parts in every history up to the depth; asynchronous loggers under all interleavings within the bound',
  'The tests throw once from one sink; failing system calls and recovery are not exercised.',
  ['include/logger.h', 'src/logger.cpp', 'base/exception.h', 'sinks/rolling_file_sink.h', 'sinks/basic_file_sink.h', 'base/thread_pool.cpp'], [('exceptions caught per sink and per message', 'src/logger.cpp, include/logger.h')], FLT, QN, ['stderr, files, instrumented sinks'])
P('S09', 'Console sinks write plainly or in colour exactly where they should',
  'The stdout and stderr sinks write each message to their own stream, the plain ones so that it is visible at once. '
  'The colour sinks put the colour of the message\'s level exactly around the range the pattern marks, and reset it after, if the stream is a terminal known to support colour (by TERM or COLORTERM), and write no control codes otherwise; colours can be changed per level and sink.',
  ['inputs', 'configurations', 'histories'], 'every terminal name x stream kind; every pattern up to the depth x level; every sequence of messages, colour and pattern changes up to the depth, on pseudo terminals',
  'Test processes have no terminal, so the coloured path is never run.',
  ['sinks/std_sinks.h', 'sinks/ansicolor_sink.h', 'sinks/std_color_sinks.h', 'base/os.h'], [('colour range of the message', 'sinks/ansicolor_sink.h')], SEQ, QN, ['bytes read from the terminal'])
P('S10', 'A log file is created at exactly the path given',
  'For every relative or absolute path, with any number of directories, ., .. and repeated separators, the log file is created at exactly that path, missing parent directories are created and nothing else is created, changed or removed, also while other threads or processes make the same directories. '
  'An open that fails transiently is retried; one that keeps failing is reported with the file\'s name, and neither destroys existing content nor leaves the sink half open.',
  ['inputs', 'fault_sequences'], 'every path of up to the depth\'s elements over the alphabet of names and separators in every small directory tree; every sequence of up to five failing opens; all interleavings of two sinks opening in one new directory',
  'The tests open two or three plain paths.',
  ['base/file_base.h', 'base/os.h'], [('directory creation and open with retries', 'base/file_base.h, base/os.h')], SEQ, QN, ['directory tree afterwards'])
P('C08', 'Sinks may be shared by threads and loggers: lines stay whole',
  'When any number of threads and loggers share a thread-safe sink, or several console sinks of one stream, each message is written as one uninterrupted line with its own colour codes, exactly once and in each thread\'s order. '
  'Flushing or changing pattern, formatter, colour or level meanwhile makes each line appear completely in the old or completely in the new form, never in the old after the new, and rolling files keep their limits.',
  ['schedules'], 'all interleavings of two or three logging threads with one flushing or changing thread on each kind of sink, up to the preemption bound',
  'Interleaved or torn lines appear only under particular preemptions; the tests count lines after one run.',
  ['sinks/basic_sink.h', 'sinks/ostream_sink.h', 'sinks/basic_file_sink.h', 'sinks/rolling_file_sink.h', 'sinks/std_sinks.h', 'sinks/ansicolor_sink.h', 'base/static_mutex.h'], [('one mutex per sink; one for the console', 'sinks/basic_sink.h, base/static_mutex.h')], SCH, SN, ['bytes written'])
P('C09', 'The registry may be used by any number of threads at once',
  'Registry operations (register, initialise, look up, remove, set default, global and per-name settings, visiting and flushing all) take effect one at a time: every concurrent history is explained by some order of its operations; of several loggers registered under one name exactly one wins and the others are told. '
  'Loggers that are removed, replaced or made default meanwhile lose no message logged through them and end with their last reference; the first use of the library and closing it may happen in several threads at once.',
  ['schedules', 'histories'], 'all pairs and triples of operations and pairs of two-operation programs from three initial states, with all interleavings up to the preemption bound; every history is checked for linearizability',
  'The tests use the registry from one thread.',
  ['base/registry.h', 'base/registry.cpp', 'src/learnlog.cpp', 'include/learnlog.h'], [('one lock around map, default and settings', 'base/registry.cpp')], SCH, SN, ['results of the operations, settings of the loggers'])
P('C10', 'Thread pools can coexist, follow each other and be replaced in use',
  'Several thread pools of any type may exist at a time or one after the other: every message goes exactly once to the workers of its own logger\'s pool, or is refused with one report once that pool is gone. '
  'Replacing the registered pool drops the asynchronous loggers from the registry, and as default logger, and keeps the synchronous ones; loggers created through the asynchronous factories, also by several threads at once, all work; worker start and stop hooks run once per worker, and an invalid thread count is refused leaving the old pool.',
  ['schedules', 'histories'], 'all interleavings of logging, creating and pool-replacing threads up to the preemption bound, on the three pool types; every history of pool and factory operations up to the depth',
  'The tests use one pool per process run.',
  ['base/registry.cpp', 'base/registry.h', 'base/thread_pool.h', 'base/thread_pool.cpp', 'base/lock_thread_pool.h', 'base/lockfree_thread_pool.h', 'base/lockfree_concurrent_thread_pool.h', 'include/async_factory.h', 'include/async_logger.h'], [('weak reference from logger to pool', 'include/async_logger.h'), ('pool replacement', 'base/registry.cpp')], SCH, SN, ['records at instrumented sinks, stderr'])
P('C11', 'Periodic work runs on time, never overlaps and stops at once',
  'A periodic function runs each time its interval has passed since the previous run ended, never earlier, never concurrently with itself and never after it was stopped; stopping returns at once, or as soon as the run in progress ends, and a zero or negative interval never runs. '
  'Periodic flushing flushes every logger registered at the time, goes on when a sink fails, is replaced by a later request and ends when the library is closed or the process exits.',
  ['schedules', 'fault_sequences'], 'all interleavings of the runner with the stopping, logging and registering threads up to the preemption bound, in virtual time',
  'A lost stop or an extra run needs a preemption between two instructions; the tests sleep and count.',
  ['base/periodic_function.h', 'base/registry.h', 'base/registry.cpp'], [('timed wait with a stop flag', 'base/periodic_function.h')], SCH, SN + 'Time is virtual: it advances only when every thread waits. ', ['calls and their virtual times'])
P('C12', 'The backtrace is exactly the last messages, each dumped once',
  'With a backtrace of size n a logger keeps its last n messages of any level, and a dump writes a start line, the kept messages oldest first with their own logger name, level, text, location and time, and an end line through the sinks whatever the logger\'s level, and then forgets them; enabling starts empty, size zero keeps nothing, disabled or never enabled dumps nothing. '
  'When several threads log and dump, each kept message is dumped exactly once, in the order of its thread, and every dump writes its start and its end line; an asynchronous logger dumps in its queue\'s order.',
  ['histories', 'schedules'], 'every sequence of messages, dumps, enabling, disabling and level changes up to the depth; all interleavings of storing and dumping threads up to the preemption bound',
  'The tests dump once in one thread.',
  ['base/backtracer.h', 'src/logger.cpp', 'include/logger.h', 'include/async_logger.h', 'base/circular_queue.h'], [('ring of message copies', 'base/backtracer.h')], SCH, SN + 'The single-thread part enumerates operation sequences (rt/seq.cpp). ', ['records at instrumented sinks'])
