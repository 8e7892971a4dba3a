SCHED = 'Every execution is one schedule (and one vector of explicit choices) of the real code, enumerated by preemption-bounded depth-first search with happens-before state caching; a case is non-trivial when its recorded outcome differs from all others.'
ENUM = 'Every execution is one vector of choices (operations, inputs, environment answers) run from scratch on the real code and compared with a reference model; a case is non-trivial when its recorded outcome differs from all others.'
A_SCHED = ['sequentially consistent interleavings plus a happens-before race check of every access by the declared memory orders', 'bounds as listed per scenario (threads, messages, preemptions)', 'g++ 13, x86-64, -O1; uninstrumented libstdc++/libc code is atomic between intercepted calls']
A_ENUM = ['bounds as listed per scenario (operation alphabet, depth, deviations)', 'g++ 13, x86-64, -O1 with address and undefined-behaviour checks']
def L(src, name=None, **k): return dict(name=name or src.split('_')[0] + ('' if k.get('tls', True) else '_notls'), src=[src], kind='lmc', **k)
def Q(src, name=None, **k): return dict(name=name or src.split('_')[0], src=[src], kind=k.pop('kind', 'seq'), **k)
PROPS = {
 'C01': dict(quick_time=150, units=[L('c01_async_delivery.cpp'), L('c01_async_delivery.cpp', tls=False), L('c01_async_delivery.cpp', name='c01m', cflags=('-DMANY_THREADS',), rtflags=('-DLMC_NT=76',))], rule=SCHED, assumptions=A_SCHED),
 'C02': dict(quick_time=240, units=[L('c02_order.cpp'), L('c02_order.cpp', tls=False)], rule=SCHED, assumptions=A_SCHED),
 'C03': dict(units=[L('c03_flush.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C04': dict(units=[L('c04_autoflush.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C05': dict(units=[L('c05_snapshot.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C07': dict(quick_time=120, units=[L('c07_mpmc_queue.cpp', lib=False), L('c07_mpmc_queue.cpp', name='c07m', lib=False, cflags=('-DMANY_THREADS',), rtflags=('-DLMC_NT=76',))], rule=SCHED, assumptions=A_SCHED),
 'C06': dict(units=[L('c06_block_queue.cpp', lib=False)], rule=SCHED, assumptions=A_SCHED),
 'S12': dict(units=[Q('s12_ring.cpp', lib=False)], rule=ENUM, assumptions=A_ENUM),
 'S02': dict(units=[Q('s02_patterns.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S03': dict(units=[Q('s03_time.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S04': dict(units=[Q('s04_padding.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S01': dict(units=[Q('s01_routing.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S08': dict(units=[Q('s08_registry.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S11': dict(units=[Q('s11_copies.cpp'), L('s11_async.cpp', name='s11a')], rule=ENUM, assumptions=A_ENUM + A_SCHED[:1]),
 'S05': dict(units=[Q('s05_rolling.cpp', rt=('sysfault.cpp',))], rule=ENUM, assumptions=A_ENUM),
 'S06': dict(units=[Q('s06_file.cpp', rt=('sysfault.cpp',))], rule=ENUM, assumptions=A_ENUM),
 'S07': dict(units=[Q('s07_failures.cpp', rt=('sysfault.cpp',)), Q('s05_rolling.cpp', name='s05r', rt=('sysfault.cpp',), cflags=('-DFAULTS_ONLY',)), L('s07_async.cpp', name='s07a'), L('s07_async.cpp', name='s07d', cflags=('-UNDEBUG',), libflags=('-UNDEBUG',))], rule=ENUM, assumptions=A_ENUM + A_SCHED[:1]),
 'S09': dict(units=[Q('s09_console.cpp')], rule=ENUM, assumptions=A_ENUM),
 'S10': dict(units=[Q('s10_paths.cpp', rt=('sysfault.cpp',))], rule=ENUM, assumptions=A_ENUM),
 'C12': dict(units=[Q('c12_backtrace.cpp', name='c12'), L('c12_threads.cpp', name='c12t')], rule=ENUM, assumptions=A_ENUM + A_SCHED[:1]),
 'C11': dict(units=[L('c11_periodic.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C08': dict(units=[L('c08_sinks.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C09': dict(units=[L('c09_registry.cpp')], rule=SCHED, assumptions=A_SCHED),
 'C10': dict(units=[L('c10_pools.cpp'), Q('c10_histories.cpp', name='c10h')], rule=SCHED, assumptions=A_SCHED),
}
