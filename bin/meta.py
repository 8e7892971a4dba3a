#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (bin/meta.py; deterministic)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'bin'))
from props import PROPS
SCH = 'stateless model checking of the compiled code: every interleaving up to a preemption bound, with happens-before state caching and race detection'
SEQ = 'bounded exhaustive enumeration of operation sequences / inputs / environment answers on the real code against a reference model'
FLT = 'bounded exhaustive enumeration of fault and crash positions on the real code (system calls answered by the checker) against a reference model'
T = []
def P(id, title, statement, over, text, why, files, mech, tech, note, obs=()):
    assert len(title) <= 80, (id, len(title))
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, obs=list(obs)))
SN = 'All interleavings of the listed small configurations within the preemption bounds reported in the evidence, on the compiled library itself. Trusts: sequential consistency plus a happens-before race check standing in for weak memory, the interception layer (rt/lmc.cpp), g++ code generation. '
QN = 'All choice vectors of the listed alphabets up to the depth reported in the evidence, on the compiled library under address and undefined-behaviour checks. Trusts: the reference model in the harness, the enumerator (rt/seq.cpp). '

P('C01', 'Asynchronous logging delivers every accepted message exactly once',
  'Every message an asynchronous logger accepts while its thread pool exists is handed to each of that logger\'s sinks whose level admits it exactly once, on any of the three pools and with any number of logging threads, workers and queue slots, a full queue making the caller wait rather than dropping anything. '
  'This includes messages logged immediately before the logger, the pool or the whole library is shut down or the process exits: shutdown drains the queue and always finishes. '
  'A message is refused only if the pool no longer exists.',
  ['schedules', 'histories', 'configurations'], 'all interleavings of producers, workers and the shutting-down thread, per pool type, up to the preemption bound',
  'The tests log from a few threads and count afterwards: one schedule per run; loss at shutdown needs a preemption between two specific operations of producer and worker.',
  ['base/thread_pool.h', 'base/thread_pool.cpp', 'base/lock_thread_pool.h', 'base/lockfree_thread_pool.h', 'base/lockfree_concurrent_thread_pool.h', 'include/async_logger.h'],
  [('worker loop and terminate messages', 'base/thread_pool.cpp'), ('pending counter before stop', 'base/lockfree_thread_pool.h')], SCH,
  SN + 'Up to 3 logging threads, 2 workers, 3 messages each, 70 in sequential long runs. Lock-free pool with fewer 32-message blocks than threads: recorded finding.', ['messages received by an instrumented sink'])
P('C02', 'The messages of one thread reach each sink in the order they were logged',
  'Messages logged by one thread, through one or several loggers, reach a sink they share in the order in which they were logged, with a synchronous logger, with the locking and the lock-free pool of one worker, and with the concurrent pool of one worker or more. '
  'The same holds when another thread continues the sequence after having been told, through any synchronisation, that the earlier messages were logged (locking pool and concurrent pool of one worker).',
  ['schedules'], 'all interleavings of up to two logging threads and up to two workers, up to the preemption bound, also across queue-block boundaries',
  'Reordering shows only under particular interleavings of dequeue and write; tests sort or count what arrives.',
  ['base/thread_pool.cpp', 'base/lock_thread_pool.h', 'base/lockfree_thread_pool.h', 'base/lockfree_concurrent_thread_pool.h', 'base/block_queue.h'],
  [('FIFO queue, one consumer', 'base/block_queue.h'), ('per-producer queues', 'base/lockfree_concurrent_thread_pool.h')], SCH, SN, ['order of messages at an instrumented sink'])
P('C03', 'flush() of an asynchronous logger is a barrier, and always returns',
  'When flush() of an asynchronous logger returns, every message the calling thread logged through it before has been handed to its sinks and each of them has been flushed after that, for a pool of one worker of any type and for the concurrent pool of any size. '
  'It returns however many threads log and flush at the same time, with a full queue, when a sink throws from writing or flushing, and when the pool is given up meanwhile; flushing all loggers at once gives the same guarantee for each.',
  ['schedules', 'fault_sequences'], 'all interleavings of up to two flushing and logging threads with workers and shutdown, with failing sinks, up to the preemption bound',
  'A missed notification or a flush overtaking a message needs a specific preemption; the tests call flush from one quiescent thread.',
  ['include/async_logger.h', 'base/async_msg.h', 'base/thread_pool.h', 'base/thread_pool.cpp'],
  [('flush message with a completion handshake', 'base/thread_pool.cpp')], SCH, SN, ['state of instrumented sinks at return'])
P('C04', 'Messages at or above the flush level, and only those, flush the sinks',
  'A message a logger accepts whose level is at or above its flush level is followed by exactly one flush of every sink of that logger, before the logging call returns if the logger is synchronous and once the message has been written if it is asynchronous; other messages cause none. '
  'This holds for all levels, while several threads log and while levels are changed, and the automatic flush never blocks the pool, even with a single worker and a queue of one.',
  ['schedules', 'inputs'], 'all level combinations; all interleavings of up to two logging threads, workers and a level change, up to the preemption bound',
  'Deadlock of a self-flushing worker needs a full queue at one moment; only single combinations of levels are tested.',
  ['src/logger.cpp', 'include/logger.h', 'include/async_logger.h', 'base/thread_pool.cpp'], [('flush level test after writing', 'src/logger.cpp')], SCH, SN, ['flush calls at instrumented sinks'])
P('C05', 'Asynchronous messages are taken over at the call, not when written',
  'The text, logger name, level, source location, time and thread id a sink of an asynchronous logger sees are those at the moment of the logging call: the caller may change or destroy the arguments, the buffers and everything else it passed as soon as the call returns. '
  'This holds for texts and names of any length, for any number of messages waiting at a time, and on every pool; the time written is the time of the call, however late the message is written.',
  ['schedules', 'inputs'], 'text and name lengths around the internal buffer capacities; all interleavings of up to two threads reusing their buffers with the worker, up to the preemption bound',
  'A dangling view usually still shows the right bytes in a test; it needs the buffer to be reused before the worker runs.',
  ['base/log_msg.h', 'base/log_msg_buf.h', 'base/async_msg.h', 'include/async_logger.h'], [('deep copy into the queued message', 'base/log_msg_buf.h')], SCH, SN, ['records at an instrumented sink'])
P('C06', 'The blocking queue is a linearizable bounded FIFO',
  'Under every schedule the blocking bounded queue behaves like one atomic FIFO of its capacity: removal takes the oldest element, inserting waits while full, the overwriting insert replaces the oldest and counts it, the discarding insert drops the new one and counts it, a timed removal fails only when it waited its time in vain, and waits no longer. '
  'No waiting thread is left asleep once its operation can proceed, and counters and size agree with the order of operations.',
  ['schedules', 'histories'], 'all interleavings of up to four threads with up to three operations each, capacities 1 and 2, with early timeouts and spurious wake-ups, up to the preemption bound; every history is checked for linearizability',
  'The tests check totals after one run; a lost wake-up or a non-atomic insert needs a chosen interleaving.',
  ['base/block_queue.h', 'base/circular_queue.h'], [('mutex and two condition variables', 'base/block_queue.h')], SCH, SN, ['returned values and counters'])
P('C07', 'The lock-free queue loses, duplicates and reorders nothing',
  'Under every schedule each element put into the lock-free queue is taken out exactly once, intact and after being put in, elements of one producer in order for each consumer, with and without producer and consumer tokens, singly and in bulk, across block boundaries and when producers come and go; a full queue refuses an element without losing it. '
  'A waiting removal returns once there is an element for it, and the queue\'s counting semaphore lets exactly as many waits pass as were signalled.',
  ['schedules'], 'all interleavings of up to two producers and two consumers with up to three operations each around block boundaries, up to the preemption bound, with a data-race check by the declared memory orders',
  'Lock-free errors need particular interleavings (or weak orderings) the tests\' hardware and load do not produce.',
  ['base/concurrentqueue/concurrentqueue.h', 'base/concurrentqueue/blockingconcurrentqueue.h', 'base/concurrentqueue/lightweightsemaphore.h'], [('blocks with per-slot emptiness flags', 'base/concurrentqueue/concurrentqueue.h')], SCH, SN, ['values taken out'])
P('S01', 'A message reaches exactly the sinks whose levels admit it',
  'Through every logging entry point (member functions, free functions of the default logger, with or without location, literal or formatted), a message is handed once to each sink of the logger, in the sinks\' order, if and only if its level is at least the logger\'s level and at least that sink\'s level at that moment, with the formatted text, the logger\'s name and the given level and location. '
  'A text without arguments is taken literally; a message that cannot be formatted is reported, reaches no sink and does not disturb later ones.',
  ['inputs', 'histories'], 'every entry point x logger level x sink level x message level; every sequence of level changes and messages up to the depth; zero to four sinks',
  'The tests try a handful of the level combinations and none of the sequences.',
  ['include/logger.h', 'src/logger.cpp', 'include/learnlog.h', 'src/learnlog.cpp', 'sinks/sink.h', 'base/log_msg.h'], [('level filters', 'src/logger.cpp, sinks/sink.h')], SEQ, QN, ['records at instrumented sinks'])
P('S02', 'Patterns mean the same in every combination',
  'The text written for a message under a pattern is the concatenation of what each directive stands for (literal text, %% , name, level, source location, thread and process id, message text, time parts, custom directives) followed by the line end, whatever directives and literal bytes stand before and after it; an unknown directive or a pattern that ends inside one does not disturb the rest. '
  'It does not depend on messages formatted before, a changed pattern takes effect completely with the next message, and a cloned formatter writes the same as its original and is independent of it.',
  ['inputs', 'histories'], 'every sequence of pattern elements up to the depth; every directive byte with every padding form in three positions; every short string over the pattern alphabet; every sequence of pattern and directive changes, clones and messages up to the depth',
  'Each directive is tested alone with one message.',
  ['sinks/formatters/pattern_formatter.cpp', 'sinks/formatters/pattern_formatter.h', 'sinks/formatters/flag_formatter.h', 'sinks/formatters/formatter.h'], [('pattern compilation', 'sinks/formatters/pattern_formatter.cpp')], SEQ, QN + 'Compared with an independent reference implementation of the pattern language (harness/ref_format.h).', ['formatted bytes'])
P('S03', 'Time directives show the message\'s own time',
  'Every time directive shows the local calendar time or the fraction of a second of the time the message carries, whatever messages (earlier, later, in the same second, in another zone offset) the formatter or a clone of it has formatted before. '
  'The elapsed-time directives show the time since the previous message formatted by that formatter, never less than zero; the date strings of error reports and of os.h show the time they are given.',
  ['inputs', 'histories'], 'instants around second, day, month, year, leap and zone-switch boundaries; every day of four years and every second of a day; every sequence of instants and clones up to the depth, in several time zones',
  'Formatting caches per second; the tests format one message of the current time.',
  ['sinks/formatters/pattern_formatter.cpp', 'sinks/formatters/flag_formatter.h', 'base/os.h', 'base/fmt_base.h'], [('per-second cache of calendar time', 'sinks/formatters/pattern_formatter.cpp')], SEQ, QN, ['formatted bytes'])
P('S04', 'Padding and truncation give exactly the requested width',
  'A directive with a width writes its text padded with spaces on the requested side (left, right, centred) to that width, unchanged if it is as long or longer, and cut to exactly that width if truncation is requested. '
  'This holds for every width the pattern language admits, for every directive and text length, without touching the rest of the line.',
  ['inputs'], 'every width 0 to beyond the maximum x side x truncation x text lengths around the width; pairs of padded directives; every directive',
  'A few widths are tested; off-by-one cases lie at odd differences, zero lengths and the maximum width.',
  ['sinks/formatters/filler.h', 'sinks/formatters/pattern_formatter.cpp', 'sinks/formatters/flag_formatter.h'], [('filler', 'sinks/formatters/filler.h')], SEQ, QN, ['formatted bytes'])
P('S08', 'The registry and global settings act like one map with defaults',
  'After any sequence of creating, registering, looking up, removing and replacing loggers and the default logger, a name denotes the logger last registered under it and no other, a second registration of a name is refused without effect, and removing the last reference ends the logger. '
  'Global level, flush level, pattern and formatter apply to all registered loggers when set and to every logger created or initialised later, and changing one logger never changes another.',
  ['histories', 'configurations'], 'every sequence of registry operations over two or three names up to the depth, from an initialised and from a fresh process; observable states followed once each for longer sequences',
  'The tests perform each operation once in a fixed order.',
  ['base/registry.h', 'base/registry.cpp', 'src/learnlog.cpp', 'include/learnlog.h', 'include/sync_factory.h'], [('locked map and default settings', 'base/registry.cpp')], SEQ, QN, ['lookups, levels, patterns, messages received'])
P('S11', 'Copies, clones, moves and swaps of loggers are independent and complete',
  'Copying, assigning, cloning, moving or swapping loggers carries over exactly name (except where a clone gets its own), levels, reported pattern and the list of sinks, and from then on changes to one logger\'s settings or sink list do not affect another, while the sinks themselves stay shared. '
  'A clone of an asynchronous logger logs asynchronously through the same pool and its messages carry its own name.',
  ['histories'], 'every sequence of copy, assign, clone, move, swap, setting changes and messages up to the depth; clones on all three pools under all interleavings within the bound',
  'The tests clone once and look at the name.',
  ['include/logger.h', 'src/logger.cpp', 'include/async_logger.h'], [('copy, move, swap and clone', 'src/logger.cpp')], SEQ, QN, ['records at instrumented sinks, getters'])
P('S12', 'The overwriting ring buffer keeps the newest elements in order',
  'A ring buffer of capacity n holds the last n elements pushed and not popped, in order, counts every element it overwrote, and answers size, emptiness, fullness, front, back and index accordingly after any sequence of operations. '
  'Copies and moved-to buffers hold the same elements independently of their source, and a moved-from or zero-capacity buffer can be queried safely and reports nothing.',
  ['histories'], 'every sequence of operations up to the depth for capacities 0 to 3, and over two buffers with copies and moves between them',
  'The tests wrap around once for one capacity.',
  ['base/circular_queue.h'], [('head, tail and overrun arithmetic', 'base/circular_queue.h')], SEQ, QN, ['returned values'])
exec(open(os.path.join(V, 'bin', 'meta2.py')).read()) if os.path.exists(os.path.join(V, 'bin', 'meta2.py')) else None
T.sort(key=lambda t: t['id'])
NA = [t for t in T if t['id'] not in PROPS]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for t in T:
        f.write(json.dumps(dict(id=t['id'], title=t['title'], statement=t['statement'], quantifier=dict(over=t['over'], text=t['text']), why_tests_cant=t['why'],
            anchors=dict(files=t['files'], mechanism=[dict(name=n, where=w) for n, w in t['mech']], observe_at=t['obs'], hook_needed=None)), ensure_ascii=False) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bin/setup', hooks=dict(guard='none (no hooks in /repo: the checks interpose at the C library and compiler level)', enable='not needed', source_commits=[]),
        checks=[dict(property=t['id'], quick_cmd='bin/check %s --tier quick' % t['id'], thorough_cmd='bin/check %s --tier thorough' % t['id'], technique=t['tech'], level='model_checking', level_note=t['note'].strip()) for t in T if t['id'] in PROPS],
        not_applicable=[dict(property=t['id'], reason='no check yet') for t in NA], notes='See DESIGN.md.'), f, indent=1); f.write('\n')
for p in PROPS: assert any(t['id'] == p for t in T), p
print(len(T), 'properties,', len(NA), 'without a check')
