"""Which binaries exist and which checks decide which property."""
ENGINE = ['engine/vsched.cpp', 'engine/arena.cpp', 'engine/pbt.cpp']
BINARIES = {
    'prog': dict(inst=['harness/prog_run.cpp'], plain=ENGINE + ['harness/prog_model.cpp', 'harness/prog_main.cpp']),
    'progtrace': dict(inst=['harness/prog_run.cpp'], plain=ENGINE + ['harness/prog_model.cpp', 'harness/prog_main.cpp'],
                      flags=['-DSPDLOG_ACTIVE_LEVEL=0']),
    'progtune': dict(inst=['harness/prog_run.cpp', 'harness/s_steady.cpp'],
                     plain=ENGINE + ['harness/prog_model.cpp', 'harness/prog_main.cpp'],
                     flags=['-DVERIF_STEADY', '-DREDGRAPES_RUL_CHUNKSIZE=1', '-DREDGRAPES_EMPLACE_NOTIFY_NEXT=1', '-DREDGRAPES_CONDVAR_TIMEOUT=0',
                            '-DREDGRAPES_ALLOC_CHUNKSIZE=(8*1024)']),
    'progtune2': dict(inst=['harness/prog_run.cpp'], plain=ENGINE + ['harness/prog_model.cpp', 'harness/prog_main.cpp'],
                      flags=['-DREDGRAPES_RUL_CHUNKSIZE=3', '-DREDGRAPES_EMPLACE_NOTIFY_NEXT=1', '-DREDGRAPES_CONDVAR_TIMEOUT=40',
                             '-DREDGRAPES_ALLOC_CHUNKSIZE=(256*1024)']),
    'units': dict(inst=['harness/u_%s.cpp' % u for u in ('access', 'resacc', 'guards', 'list', 'alloc', 'bits', 'cv', 'queue', 'gpu')],
                  plain=ENGINE + ['harness/units_main.cpp']),
    'sys': dict(inst=['harness/s_%s.cpp' % u for u in ('tags', 'spread', 'narrow', 'steady', 'mpi')],
                plain=ENGINE + ['harness/sys_main.cpp']),
    'props': dict(inst=['harness/s_props.cpp'], plain=ENGINE + ['harness/props_main.cpp'], flags=['-DVERIF_PROPS']),
    'big': dict(inst=['harness/b_big.cpp'], plain=['engine/vsched.cpp', 'engine/noarena.cpp', 'engine/pbt.cpp', 'harness/big_main.cpp'],
                lib='plain', flags=['-DREDGRAPES_ALLOC_CHUNKSIZE=(32<<20)']),
}


def prog(name, quick_s=30, thorough_s=600):
    return dict(bin='prog', name=name, quick_s=quick_s, thorough_s=thorough_s)


def unit(name, quick_s=25, thorough_s=600):
    return dict(bin='units', name=name, quick_s=quick_s, thorough_s=thorough_s)


def sysc(name, quick_s=25, thorough_s=600):
    return dict(bin='sys', name=name, quick_s=quick_s, thorough_s=thorough_s)


CHECKS = {
    'P01': [prog('order', 24), prog('order_demote', 12)],
    'P02': [prog('heldback')],
    'P03': [prog('descend')],
    'P04': [prog('once', 24), unit('queue', 8)],
    'P05': [prog('futures')],
    'P06': [prog('events')],
    'P07': [prog('suspend')],
    'P08': [prog('narrow', 20), sysc('narrow_race', 14)],
    'P09': [prog('scopes')],
    'P10': [unit('access', 14), unit('resacc', 14)],
    'P11': [unit('guards', 20)],
    'P12': [unit('list', 30), unit('chunks', 15)],
    'P13': [unit('alloc', 18), unit('alloc_api', 14)],
    'P14': [unit('bits', 14), unit('claim', 16)],
    'P15': [unit('condvar', 25)],
    'P16': [sysc('tags_api', 6), sysc('tags', 24)],
    'P17': [prog('introspect')],
    'P18': [sysc('spread', 32)],
    'P19': [prog('leaks', 16), sysc('steady', 16)],
    'P20': [sysc('requests', 26)],
    'P21': [prog('safety')],
    'P22': [prog('lifetimes')],
    'P25': [dict(bin='progtune', name='tuned', quick_s=18, thorough_s=300),
            dict(bin='progtune', name='tuned_leaks', quick_s=6, thorough_s=150),
            dict(bin='progtune', name='tuned_steady', quick_s=10, thorough_s=150),
            dict(bin='progtune2', name='tuned2', quick_s=10, thorough_s=300)],
    'P24': [dict(bin='progtrace', name='describe', quick_s=16, thorough_s=300), dict(bin='progtrace', name='logging', quick_s=18, thorough_s=300)],
    'P26': [dict(bin='props', name='properties', quick_s=25, thorough_s=600)],
    'P27': [unit('gpu_events', 15, 300)],
    'P23': [dict(bin='big', name='counts', quick_s=40, thorough_s=600)],
}

PROGRAMS = ('generated task programs (nested tasks, accesses, events, futures, waits, narrowing, barriers, re-init) are '
            'executed on the real library under generated thread schedules and compared with a serial reference model; '
            'failures are shrunk and replayed')
TECHNIQUE = {p: 'stateful property-based testing: ' + PROGRAMS for p in CHECKS}
NOTE = {p: 'random search, no exhaustiveness: up to ~30 tasks, 1-5 workers, sequentially consistent schedules' for p in CHECKS}
SCHED = ' under generated thread schedules; failures are shrunk and replayed'
TECHNIQUE.update({
    'P10': 'property-based testing: generated pairs and triples of accesses of every kind against a model by enumerated '
           'elementary operations, plus metamorphic relations (symmetry, reflexivity, transitivity, order of operands)',
    'P11': 'property-based testing: generated chains of restrictions of guards, indices and concurrent creation of resources '
           'against a model of areas and identities' + SCHED,
    'P12': 'stateful property-based testing: generated concurrent histories of append, removal and iteration are checked '
           'against a model of element lifetimes' + SCHED,
    'P13': 'stateful property-based testing: generated concurrent histories of allocation and release with injected failures '
           'of the system, against a model of live blocks and bounds on the chunks held' + SCHED,
    'P14': 'stateful property-based testing: generated operation sequences on bit fields and worker pools against a bit vector '
           'model, and generated concurrent claims against an ownership model' + SCHED,
    'P15': 'stateful property-based testing: generated wait and notify histories against a counting model, examined '
           'whenever every thread is at rest' + SCHED,
})
TECHNIQUE.update({
    'P16': 'stateful property-based testing: generated sets of schedulers, tags and calls against a first-match model, and '
           'generated task programs with recording schedulers and dependency types' + SCHED,
    'P18': 'property-based testing: generated groups of tasks which can only complete if all of them run at the same time, '
           'submitted to a runtime at rest or made ready together' + SCHED,
    'P19': 'stateful property-based testing: generated programs and repeated workloads; live blocks and chunks are counted '
           'when the runtime is at rest and after shutdown' + SCHED,
    'P20': 'stateful property-based testing: generated requests on a simulated message passing library which reports '
           'generated subsets in generated order, against a model of outstanding requests' + SCHED,
})
TECHNIQUE['P27'] = ('stateful property-based testing: generated concurrent histories of requests and returns on both pools with a '
                    'simulated device runtime, against an ownership model' + SCHED)
NOTE['P27'] = 'random search: up to 4 threads with up to 8 operations each and round, sequentially consistent schedules; device runtime simulated'
TECHNIQUE['P23'] = ('property-based testing: generated numbers of predecessors, successors, children, events, accesses, resources, '
                    'levels, waits, futures and updates, mostly around powers of two up to 140000, on freely running threads '
                    'against counting oracles; failures are shrunk and replayed')
NOTE['P23'] = 'random search over sizes up to 140000 (200000 resources), 1-4 workers, interleavings as the machine produces them'
SMALL = 'random search over generated inputs, no exhaustiveness; '
NOTE.update({
    'P10': SMALL + 'coordinates are drawn from small ranges and the extremes of the type, dimension 1-3',
    'P11': SMALL + 'dimension 1-3, up to 6 restrictions, up to 4 threads creating resources',
    'P12': SMALL + 'up to 4 threads with up to 14 operations each (one thread: 40), chunks of 1-8 elements, sequentially consistent schedules',
    'P13': SMALL + 'up to 4 threads with up to 20 operations each (one thread: 60), sequentially consistent schedules',
    'P14': SMALL + 'pools of 1-260 workers, up to 4 threads, sequentially consistent schedules',
    'P16': SMALL + 'up to 5 schedulers, 64 tags, up to 12 tasks, 1-4 workers, sequentially consistent schedules',
    'P18': SMALL + '1-71 workers, up to 4 rounds, sequentially consistent schedules',
    'P19': SMALL + 'up to some hundred repetitions of a workload, 1-5 workers, sequentially consistent schedules',
    'P20': SMALL + 'up to 7 tasks with 1-3 requests each, 1-4 workers, sequentially consistent schedules',
    'P15': SMALL + 'one waiter, up to 3 notifiers and the main thread, sequentially consistent schedules',
})
TECHNIQUE['P25'] = ('stateful property-based testing: the library is built with extreme values of its settings; generated task '
                    'programs run under generated thread schedules and are compared with the serial reference model; failures are '
                    'shrunk and replayed')
NOTE['P25'] += '; two combinations of settings besides the one of the other checks'
TECHNIQUE['P24'] = ('stateful property-based testing: the library is built with every log message enabled and formatted; generated task '
                    'programs run under generated thread schedules, descriptions are compared with what was declared, everything '
                    'else with the serial reference model; failures are shrunk and replayed')
TECHNIQUE['P26'] = ('stateful property-based testing: generated task programs with a composed task type, argument types with hooks, '
                    'interleaved and moved builders and updates, against a model of every property of every task' + SCHED)
NOTE['P26'] = SMALL + 'one composition of five properties, up to 12 tasks, 1-4 workers, sequentially consistent schedules'
NOT_APPLICABLE = {}
