"""What each check runs. jobs(tier) -> list of {h: harness, fl: build flavour, args, shards, timeout, cores}."""


def T(tier, q, t):
    return q if tier == 'quick' else t


def seq(profile, modes, cases, ops, fl='plain', shards=4, judge=None, extra=(), timeout=240):
    a = ['--profile=' + profile, '--modes=%d' % modes, '--cases=%d' % cases, '--ops=%d' % ops] + list(extra)
    if judge:
        a.append('--judge=' + judge)
    return {'h': 'seq', 'fl': fl, 'args': a, 'shards': shards, 'timeout': timeout}


SPECS = {}


def spec(pid, **kw):
    SPECS[pid] = kw


SEQ_RULE = ('random operation histories over random configurations (block sizes, memcap, bucket size, mapped or read/write files, '
            'disk/memory-only/jemalloc) and nine key families, each result compared with an executable model; '
            'distinct = distinct update histories and tree shapes')
SEQ_ASSUME = ['single-threaded histories; concurrency is C07/C08/C12', 'the std::map model in the harness is the specification']


def seqs(profile, judge, cases, ops, need, evals, modes=(3, 12), asan=True, extra=(), jcases=None):
    def jobs(t):
        r = [seq(profile, modes[0], T(t, cases, cases * 12), ops, shards=T(t, 6, 16), judge=judge, extra=['--pfx=0'] + list(extra), timeout=T(t, 240, 800))]
        if len(modes) > 1:
            r.append(seq(profile, modes[1], T(t, jcases or cases // 3, (jcases or cases // 3) * 12), ops, shards=T(t, 4, 8), judge=judge, extra=['--pfx=0'] + list(extra), timeout=T(t, 240, 800)))
        if asan:
            r.append(seq(profile, modes[0], T(t, cases // 8, cases), ops * 3 // 4, fl='asan', shards=T(t, 4, 8), judge=judge, extra=['--pfx=0'] + list(extra), timeout=T(t, 240, 800)))
        return r
    return dict(evals=evals, rule=SEQ_RULE, assumptions=SEQ_ASSUME, need=need, jobs=jobs)


spec('C01', **seqs('map', 'map,count,open', 300, 800, {'find': 10000, 'add': 10000, 'remove': 5000, 'value_copies': 2000}, ['ops']))
spec('C02', **seqs('prefix', 'prefix', 300, 900, {'prefix_exact': 5000, 'prefix_inner': 5000, 'prefix_none': 5000}, ['prefix']))
spec('C03', **seqs('lower', 'lower', 300, 900, {'lower_exact': 3000, 'lower_less': 5000, 'lower_none': 200}, ['lower']))
spec('C04', **seqs('iter', 'iter', 300, 800, {'iter_prefix': 3000, 'iter_full': 1000, 'iter_entries': 10000, 'iter_copies': 500}, ['iter_full', 'iter_prefix']))
spec('C05', **seqs('reopen', 'map,count,open,prefix,lower,iter,fsck', 150, 800, {'reopen': 500, 'persist': 20}, ['reopen', 'persist'], modes=(1,)))
spec('C11', **seqs('rc', 'map,count,prefix,lower,iter,rc,fsck', 200, 800, {'rc': 3000, 'fsck': 3000, 'mass_big': 100, 'mass_equal': 100}, ['rc'], modes=(3,)))
spec('C14', **seqs('space', 'fsck', 250, 900, {'fsck': 1000, 'free_extents': 10000, 'mass_big': 50, 'mass_equal': 50}, ['fsck'], modes=(1,), asan=False))
spec('C22', **seqs('removeall', 'map,count,prefix,lower,iter,fsck', 200, 800, {'removeall': 1000}, ['removeall']))

SCHED_RULE = ('seeded schedules of one writer and 1-3 readers in which every access of the library to shared memory is a switch point; '
              'distinct = distinct schedules (hash of the sequence of thread choices and positions)')


def sched(modes, cases, judge, shards, extra=(), timeout=400):
    return {'h': 'sched', 'fl': 'inst', 'args': ['--modes=%d' % modes, '--cases=%d' % cases, '--rounds=20', '--judge=' + judge] + list(extra), 'shards': shards, 'timeout': timeout}



STRESS_RULE = ('free-running threads and processes with one writer, over restarts and kills of the writer, resource collection and RemoveAll; '
               'distinct also counts distinct final version vectors')


def stress(cases, shards, extra=(), judge='slin,splin', fl='plain', timeout=240, ops=4000):
    return {'h': 'stress', 'fl': fl, 'args': ['--cases=%d' % cases, '--ops=%d' % ops, '--judge=' + judge] + list(extra), 'shards': shards, 'timeout': timeout, 'cores': 3}


STEP_RULE = ('the library as it is compiled (-O2) is stopped between two machine instructions of one call while other processes read or update the files')


def step(mode, cases, ops, shards, judge, extra=(), timeout=240):
    return {'h': 'step', 'fl': 'opt', 'args': ['--mode=' + mode, '--cases=%d' % cases, '--ops=%d' % ops, '--judge=' + judge] + list(extra), 'shards': shards, 'timeout': timeout}


spec('C07', evals=['finds'], rule=SCHED_RULE + '; and ' + STRESS_RULE + '; and ' + STEP_RULE, need={'overlapped': 3000, 'stepped': 100, 'finds_overlapping_write': 2000, 'retries': 1000, 'rounds': 5000, 'w_add': 50000},
     assumptions=['interleavings of the explorer are sequentially consistent at access granularity; the free-running ones are those of this machine', 'one writer, as the library requires'],
     jobs=lambda t: [
         sched(3, T(t, 800, 8000), 'lin,writer,open', T(t, 8, 16), ['--iter=0', '--prefix=0'], T(t, 300, 800)),
         sched(12, T(t, 400, 4000), 'lin,writer,open', T(t, 8, 16), ['--iter=0', '--prefix=0'], T(t, 300, 800)),
         stress(T(t, 25, 400), T(t, 4, 8), judge='slin', timeout=T(t, 240, 800)),
         step('read', T(t, 30, 500), 60, T(t, 8, 16), 'lin,open', ['--iter=0', '--prefix=0'], T(t, 240, 800)),
         step('write', T(t, 4, 60), 10, T(t, 6, 16), 'lin,open', ['--iter=0', '--prefix=0'], T(t, 240, 800)),
         stress(T(t, 6, 80), T(t, 2, 4), judge='slin', fl='asan', ops=2000, timeout=T(t, 240, 800)),
     ])
spec('C08', evals=['prefixes', 'iters'], rule=SCHED_RULE + '; and ' + STRESS_RULE + '; and ' + STEP_RULE, need={'overlapped': 3000, 'stepped': 100, 'prefixes': 2000, 'iters': 2000, 'rounds': 5000, 'w_add': 50000},
     assumptions=['interleavings of the explorer are sequentially consistent at access granularity; the free-running ones are those of this machine', 'one writer, as the library requires'],
     jobs=lambda t: [
         sched(3, T(t, 800, 8000), 'plin,ilin', T(t, 8, 16), [], T(t, 300, 800)),
         sched(12, T(t, 400, 4000), 'plin,ilin', T(t, 8, 16), [], T(t, 300, 800)),
         stress(T(t, 25, 400), T(t, 4, 8), judge='splin', timeout=T(t, 240, 800)),
         step('read', T(t, 30, 500), 60, T(t, 8, 16), 'plin,ilin,open', ['--iter=40', '--prefix=60'], T(t, 240, 800)),
         step('write', T(t, 4, 60), 10, T(t, 6, 16), 'plin,ilin,open', ['--iter=40', '--prefix=60'], T(t, 240, 800)),
     ])

spec('C17', evals=['find', 'finds'], rule=SEQ_RULE + '; and ' + SCHED_RULE,
     need={'cache_entries': 3000, 'cache_filled': 500, 'cache_empty': 50, 'reopen': 50, 'finds_overlapping_write': 1000},
     assumptions=SEQ_ASSUME[1:] + ['interleavings are sequentially consistent at access granularity'],
     jobs=lambda t: [
         seq('pfx', 3, T(t, 200, 2500), 800, shards=T(t, 5, 16), extra=['--judge=map,prefix,count,open'], timeout=T(t, 240, 800)),
         seq('pfx', 12, T(t, 70, 900), 800, shards=T(t, 3, 8), extra=['--judge=map,prefix,count,open'], timeout=T(t, 240, 800)),
         seq('pfx', 3, T(t, 25, 200), 600, fl='asan', shards=T(t, 2, 8), extra=['--judge=map,prefix,count,open'], timeout=T(t, 240, 800)),
         sched(3, T(t, 220, 5000), 'lin,writer,open', T(t, 8, 16), ['--iter=0', '--prefix=0', '--pfx=1', '--rc=1'], T(t, 300, 800)),
         sched(12, T(t, 100, 2500), 'lin,writer,open', T(t, 4, 8), ['--iter=0', '--prefix=0', '--pfx=1'], T(t, 300, 800)),
     ])


ASYNC_RULE = ('free-running producer threads and processes with owned keys, a monitor of every answer, barriers with exact comparison; '
              'distinct = distinct final contents of phases')


def asy(kind, modes, cases, shards, extra=(), fl='plain', timeout=300, cores=2):
    return {'h': 'async', 'fl': fl, 'args': ['--kind=' + kind, '--modes=%d' % modes, '--cases=%d' % cases, '--judge=async,map,open'] + list(extra), 'shards': shards, 'timeout': timeout, 'cores': cores}


ASYNC_ASSUME = ['a key is updated by one producer only, so that its history is a total order', 'the free-running schedules are those the machine produced']
QUEUE_RULE = ('up to three producers stand still after a seeded number of machine instructions of a queueing call, while others queue updates and the writer is closed, killed and '
              'opened again; then they go on or are killed; after each round some order of the calls must explain the contents; distinct = distinct (call, instruction, position)')
spec('C09', evals=['updates', 'reads'], rule=ASYNC_RULE + '; and ' + QUEUE_RULE, assumptions=ASYNC_ASSUME,
     need={'updates': 2000, 'final_checks': 2000, 'kills': 3, 'removeall_events': 3, 'writer_reopens': 3, 'queue_full': 20, 'stood': 2000, 'went_on': 1000, 'killed': 700, 'writer_closed': 200, 'writer_killed': 50},
     jobs=lambda t: [
         asy('mix', 15, T(t, 8, 60), T(t, 4, 8), timeout=T(t, 240, 800)),
         asy('removeall', 15, T(t, 6, 40), T(t, 2, 4), timeout=T(t, 240, 800)),
         asy('kill', 15, T(t, 6, 40), T(t, 2, 4), timeout=T(t, 240, 800)),
         asy('any', 3, T(t, 4, 30), T(t, 2, 4), fl='asan', timeout=T(t, 240, 800)),
         step('queue', T(t, 60, 1200), 10, T(t, 6, 16), 'queue,open', timeout=T(t, 240, 800)),
         seq('async', 3, T(t, 40, 600), 400, shards=T(t, 2, 8), judge='map,count,open,prefix,lower,iter,fsck', timeout=T(t, 240, 800)),
     ])
spec('C12', evals=['reads', 'finds'], rule=ASYNC_RULE + '; and ' + SCHED_RULE + '; and ' + QUEUE_RULE, assumptions=ASYNC_ASSUME + ['interleavings in the explorer are sequentially consistent at access granularity'],
     need={'updates': 2000, 'final_checks': 2000, 'rc_requests': 20, 'rounds': 2000, 'finds_overlapping_write': 1000},
     jobs=lambda t: [
         asy('mix', 3, T(t, 8, 60), T(t, 4, 8), ['--rc=2', '--backup=0'], timeout=T(t, 240, 800)),
         sched(3, T(t, 250, 5000), 'lin,plin,ilin,writer,open', T(t, 8, 16), ['--rc=1'], T(t, 300, 800)),
         asy('mix', 3, T(t, 4, 30), T(t, 1, 4), ['--rc=2', '--backup=0'], fl='asan', timeout=T(t, 240, 800)),
         step('queue', T(t, 60, 1200), 10, T(t, 6, 16), 'queue,open', ['--rc=25'], timeout=T(t, 240, 800)),
         stress(T(t, 15, 300), T(t, 4, 8), ['--modes=1', '--rc=100', '--restart=20', '--kill=20'], timeout=T(t, 240, 800)),
     ])
spec('C15', **dict(seqs('backup', 'backup,open,map,count,fsck', 25, 500, {'backup': 100, 'backup_updated': 30}, ['backup'], modes=(1, 4)),
     rule=SEQ_RULE + '; and ' + ASYNC_RULE))
_c15 = SPECS['C15']['jobs']
SPECS['C15']['jobs'] = lambda t: _c15(t) + [asy('mix', 1, T(t, 5, 40), T(t, 3, 8), ['--rc=0', '--backup=2'], timeout=T(t, 240, 800))]
SPECS['C15']['need']['backups'] = 10
spec('C16', evals=['keep_restart', 'reopen'], rule=SEQ_RULE, assumptions=SEQ_ASSUME,
     need={'keep_restart': 200, 'keep_killed': 20, 'keep_updates': 100000, 'reopen': 50},
     jobs=lambda t: [
         seq('keep', 4, T(t, 40, 300), 15, shards=T(t, 6, 16), judge='keep,capacity,map,count,iter,fsck,open', timeout=T(t, 240, 800)),
         seq('jem', 4, T(t, 100, 800), 500, shards=T(t, 4, 8), judge='map,count,prefix,lower,iter,fsck,open', timeout=T(t, 240, 800), extra=['--pfx=0']),
         seq('full', 4, T(t, 10, 60), 6, shards=T(t, 4, 8), judge='capacity,map,count,iter,fsck,open', timeout=T(t, 240, 800)),
         seq('keep', 4, T(t, 6, 40), 10, fl='asan', shards=T(t, 2, 8), judge='keep,capacity,map,count,iter,fsck,open', timeout=T(t, 240, 800)),
     ])
spec('C26', evals=['full_adds', 'remove_full'], rule=SEQ_RULE + ', with 1 to 3 blocks of 4 MB so that every history runs out of space several times', assumptions=SEQ_ASSUME,
     need={'filled': 100, 'full_adds': 50000, 'remove_full': 500, 'readd': 500, 'removeall': 5},
     jobs=lambda t: [
         seq('full', 3, T(t, 16, 120), 6, shards=T(t, 8, 16), judge='capacity,map,count,prefix,lower,iter,fsck,open', timeout=T(t, 240, 800)),
         seq('full', 12, T(t, 10, 60), 6, shards=T(t, 4, 8), judge='capacity,map,count,prefix,lower,iter,fsck,open', timeout=T(t, 240, 800)),
         seq('full', 15, T(t, 3, 20), 4, fl='asan', shards=T(t, 4, 8), judge='capacity,map,count,prefix,lower,iter,fsck,open', timeout=T(t, 300, 800)),
     ])

def crash(extra, cases, ops, shards, timeout=300):
    return {'h': 'crash', 'fl': 'inst', 'args': ['--cases=%d' % cases, '--ops=%d' % ops, '--judge=crash'] + list(extra), 'shards': shards, 'timeout': timeout}


spec('C06', evals=['kills', 'examined'], need={'kills': 5000, 'kill_mid_copy': 400, 'kill_async': 100, 'kill_rc': 10, 'enum_ops': 200, 'survivor_checks': 300, 'kill_removeall': 20, 'kill_open': 20, 'examined_add': 600, 'examined_remove': 300},
     rule='a writer process is killed at (or in the middle of) a chosen store to the shared files: at every store of single operations on generated databases, '
          'and at random stores of long histories with resource collection, RemoveAll, open, close, and of an async writer; '
          'and the files as they are after every store of single operations of the library as it is compiled (-O2, stopped instruction by instruction) are given to the next writer; '
          'distinct = distinct (operation, database size, store) crash points',
     assumptions=['the process dies, not the machine: all completed stores survive, in program order', 'an update may be counted twice or not at all by Count() for each kill',
                  'updates made during an asynchronous resource collection that is killed are excluded'],
     jobs=lambda t: [
         crash(['--enum'], T(t, 2, 30), 16, T(t, 16, 16), T(t, 300, 800)),
         crash(['--modes=1'], T(t, 5, 60), 30, T(t, 4, 8), T(t, 300, 800)),
         crash(['--modes=2'], T(t, 5, 60), 30, T(t, 3, 8), T(t, 300, 800)),
         crash(['--modes=4'], T(t, 5, 60), 30, T(t, 2, 4), T(t, 300, 800)),
         step('crash', T(t, 2, 60), 4, T(t, 8, 16), 'crash,open', timeout=T(t, 300, 800)),
         crash(['--async'], T(t, 4, 60), 20, T(t, 4, 8), T(t, 300, 800)),
         stress(T(t, 8, 150), T(t, 2, 4), ['--modes=1', '--kill=100', '--removeall=0'], timeout=T(t, 240, 800)),
     ])


def life(cases, shards, fl='plain', timeout=240):
    return {'h': 'lifecycle', 'fl': fl, 'args': ['--cases=%d' % cases, '--ops=300', '--judge=life'], 'shards': shards, 'timeout': timeout, 'cores': 1}


spec('C10', evals=['op_open', 'paropen', 'op_close', 'op_copy', 'op_assign', 'closed_use'],
     need={'writer_refused': 500, 'writer_opened': 200, 'paropen': 30, 'racing_opens': 30, 'killed': 30, 'closed_again': 100, 'copies': 20, 'assigns': 30, 'verified': 500, 'close_race': 10, 'failed_open': 100},
     rule='up to four processes with six handle slots each open, copy, assign, use, close, close again, destroy and leak handles of up to three databases and are killed, '
          'with opens racing in threads and in processes; distinct = distinct states of all handles of a database at an open',
     assumptions=['ClearResources is not called for a database with open handles'],
     jobs=lambda t: [
         life(T(t, 12, 150), T(t, 8, 16), timeout=T(t, 240, 800)),
         life(T(t, 3, 40), T(t, 4, 8), fl='asan', timeout=T(t, 240, 800)),
     ])


def mis(modes, cases, shards, fl='plain', timeout=240):
    return {'h': 'misuse', 'fl': fl, 'args': ['--modes=%d' % modes, '--cases=%d' % cases, '--ops=300', '--judge=misuse'], 'shards': shards, 'timeout': timeout, 'cores': 1}


spec('C18', evals=['refused', 'bad_args', 'bad_handle', 'bad_open', 'bad_backup'],
     need={'bad_args': 3000, 'bad_handle': 1000, 'bad_offset': 200, 'bad_open': 200, 'bad_backup': 50, 'refused': 3000, 'compared': 300, 'long_queries': 100},
     rule='valid histories interleaved with calls which violate one rule of the interface: argument values at and beyond every limit, calls on handles of the wrong kind, '
          'closed, never opened or failed, invalid configurations, impossible backup targets, offsets beyond the database; after each, the contents are compared with the model; '
          'distinct = distinct (call, violated rule, handle state, storage mode)',
     assumptions=['pointers passed with a length are valid for that length'],
     jobs=lambda t: [
         mis(31, T(t, 80, 1500), T(t, 8, 16), timeout=T(t, 240, 800)),
         mis(31, T(t, 25, 400), T(t, 4, 8), fl='asan', timeout=T(t, 240, 800)),
     ])
spec('C13', evals=['ev_calls'], need={'ev_over': 1000, 'ev_under': 1000, 'ev_pruned': 500, 'ev_evicted': 100000, 'ev_dense': 100, 'ev_async': 200, 'ev_wrap_updates': 1000000},
     rule='histories of additions, overwrites, removals, RemoveAll, reopening and evictions with limits around the number of entries, with buckets of 8 to 500 updates and enough updates '
          'to let the bucket numbers wrap; and free-running producers while the async writer evicts; distinct = distinct (limits, entries before and after, age) of evictions',
     assumptions=['entries which were not updated within the last 60000 buckets have no age'],
     jobs=lambda t: [
         seq('evict', 3, T(t, 40, 500), 10, shards=T(t, 6, 16), judge='evict,map,count,iter,prefix,lower,rc,fsck,open', timeout=T(t, 240, 800)),
         seq('evasync', 3, T(t, 15, 200), 6, shards=T(t, 6, 16), judge='evict,map,count,iter,rc,fsck,open', timeout=T(t, 240, 800)),
         seq('evict', 3, T(t, 3, 40), 8, fl='asan', shards=T(t, 2, 8), judge='evict,map,count,iter,prefix,lower,rc,fsck,open', timeout=T(t, 240, 800)),
         seq('evasync', 3, T(t, 2, 20), 5, fl='asan', shards=T(t, 2, 8), judge='evict,map,count,iter,rc,fsck,open', timeout=T(t, 240, 800)),
     ])


def mul(cases, ops, shards, fl='plain', timeout=240, extra=(), cores=1):
    return {'h': 'multi', 'fl': fl, 'args': ['--cases=%d' % cases, '--ops=%d' % ops, '--judge=multi'] + list(extra), 'shards': shards, 'timeout': timeout, 'cores': cores}


spec('C21', evals=['checks', 'updates'], need={'checks': 5000, 'updates': 100000, 'threaded': 5, 'processes': 20, 'failed_opens': 200, 'removeall': 200, 'erased': 100, 'queues_left': 20},
     rule='three to eight databases of different kinds (mapped, files, memory-only, jemalloc, async with a shared or own queue directory) in directories next to and inside each other are updated, '
          'emptied, collected, closed, re-opened, erased and created again in one thread, in threads and in processes; each is compared with its own model; distinct = distinct final contents',
     assumptions=['at most one async writer is open in a process at a time', 'ClearResources is not called for a database with open handles'],
     jobs=lambda t: [
         mul(T(t, 15, 300), 120, T(t, 6, 16), timeout=T(t, 240, 800), cores=2),
         mul(T(t, 4, 100), 80, T(t, 3, 8), fl='asan', timeout=T(t, 240, 800), cores=2),
     ])
spec('C20', evals=['updates', 'checks'], need={'checks': 200, 'updates': 5000, 'threaded': 8, 'clears': 5, 'opens': 200},
     rule='each thread works on databases of its own (mapped, files, memory-only, jemalloc) - opening, updating, looking up, collecting, emptying, closing, closing failed opens, logging - while ThreadSanitizer '
          'watches every access of the library; distinct = distinct final contents',
     assumptions=['ThreadSanitizer sees only accesses which were made; lock-free access to one database through shared memory is C07 and C08', 'at most one async writer is open in a process at a time'],
     jobs=lambda t: [
         mul(T(t, 4, 60), 60, T(t, 4, 8), fl='tsan', timeout=T(t, 300, 800), extra=['--tsan'], cores=2),
         mul(T(t, 10, 120), 100, T(t, 3, 8), timeout=T(t, 240, 800), extra=['--modes=79'], cores=2),
     ])

spec('C28', evals=['finds', 'prefixes', 'iters', 'keep_reads_during_restart'], rule=STRESS_RULE + '; and ' + SCHED_RULE + ' (with the writer closing and another one opening, recovering and rebuilding); and a writer which opens is stopped at a seeded place while readers look, stand still or are killed in a lookup',
     need={'rebuilds': 500, 'overlapped': 500, 'killed_not_waited_for': 50, 'waited': 10, 'w_reopen': 1500, 'w_rebuild': 200, 'w_killed': 10, 'finds': 100000, 'iters': 5000, 'keep_reads_during_restart': 20000, 'keep_readers_killed': 20},
     assumptions=['the process dies, not the machine', 'while a killed writer has not been replaced an iteration may end early'],
     jobs=lambda t: [
         stress(T(t, 20, 300), T(t, 3, 8), ['--modes=5', '--restart=100', '--kill=0', '--removeall=0'], timeout=T(t, 240, 800)),
         stress(T(t, 15, 200), T(t, 3, 8), ['--modes=1', '--restart=50', '--kill=100', '--removeall=0'], timeout=T(t, 240, 800)),
         seq('keep', 4, T(t, 30, 300), 15, shards=T(t, 4, 8), judge='keep,map,count,fsck,open', timeout=T(t, 240, 800)),
         sched(5, T(t, 40, 800), 'lin,plin,ilin,writer,open', T(t, 6, 16), ['--reopen=60'], T(t, 300, 800)),
         step('rebuild', T(t, 60, 900), 6, T(t, 6, 16), 'rebuild,lin,plin,ilin,open', [], T(t, 240, 800)),
         stress(T(t, 5, 60), T(t, 2, 4), ['--modes=5', '--restart=100', '--kill=30'], fl='asan', ops=2000, timeout=T(t, 240, 800)),
     ])


def leak(cases, shards, fl='opt', timeout=240, extra=()):
    return {'h': 'leak', 'fl': fl, 'args': ['--cases=%d' % cases, '--judge=leak'] + list(extra), 'shards': shards, 'timeout': timeout, 'cores': 1}


spec('C25', evals=['measured', 'steady_measured'], need={'measured': 200, 'steady_measured': 200, 'measured_mapped': 20, 'measured_files': 20, 'measured_memory': 20, 'measured_jemalloc': 20, 'measured_cache': 20,
     'repetitions': 2000, 'failed_writers': 1000, 'refused': 1000, 'backups': 200, 'collections': 500, 'iterations': 2000, 'allocations': 1000000},
     rule='a generated history of opening, updating, looking up, iterating (to the end or not), copying, assigning, collecting, emptying, backing up, failing to open and closing is repeated nine times in one process on the same path; and '
          'a generated mix of reading, opening and closing is repeated while a writer stays open. After each, the descriptors, mappings and mapped bytes, threads, live heap blocks and jemalloc arenas of the process are counted: '
          'growth in each of the last six repetitions is a leak, and so is any descriptor or mapping of the database after everything was closed and cleared; distinct = distinct (storage, history)',
     assumptions=['jemalloc keeps address ranges of its bookkeeping of destroyed arenas'],
     jobs=lambda t: [leak(T(t, 120, 2000), T(t, 8, 16), timeout=T(t, 240, 800))])


def shell(cases, shards, exprs=2000, fl='plain', timeout=240):
    return {'h': 'shell', 'fl': fl, 'args': ['--cases=%d' % cases, '--exprs=%d' % exprs, '--judge=shell'], 'shards': shards, 'timeout': timeout}


spec('C24', evals=['expressions', 'sh_compared', 'sh_contents'],
     need={'expressions': 100000, 'expr_valid': 50000, 'expr_invalid': 50000, 'expr_big': 100, 'processes': 500, 'sh_compared': 800, 'sh_contents': 200, 'sh_bad': 200, 'sh_interactive': 500,
           'sh_list': 200, 'sh_lower': 100, 'sh_prefix': 300, 'sh_find': 500, 'sh_add': 500, 'sh_delete': 100, 'sh_deleteall': 20, 'sh_reclaim': 50, 'sh_writer': 50, 'sh_reader': 50, 'sh_client': 20, 'sh_again': 30},
     rule='the expression parser of mbc is given generated expressions (quotes, numbers, nested bin and hex, mutations of them, random text) and compared with an independent recursive reading of the grammar; '
          'and the tool itself runs as a process (single queries, scripts, standard input; as writer, async writer, reader, client of a writer, and again after a writer) with keys and values of arbitrary bytes, '
          'and its answers and what it left in the database are compared with a map; distinct = distinct (query, who asks, outcome)',
     assumptions=['the text of messages is compared only where it carries a key, a value or whether the query was done'],
     jobs=lambda t: [shell(T(t, 16, 250), T(t, 8, 16), timeout=T(t, 240, 850)),
                     shell(T(t, 6, 100), T(t, 4, 8), fl='asan', timeout=T(t, 240, 850))])


def flt(modes, cases, shards, fl='plain', timeout=240):
    return {'h': 'fault', 'fl': fl, 'args': ['--modes=%d' % modes, '--cases=%d' % cases, '--ops=1500', '--judge=fault'], 'shards': shards, 'timeout': timeout, 'cores': 1}


spec('C27', evals=['faulted', 'compared'],
     need={'faulted': 500, 'faults': 700, 'faulted_kind_1': 200, 'faulted_kind_2': 200, 'faulted_kind_4': 200, 'faulted_kind_8': 200, 'refused_add': 100, 'refused_writer': 30, 'refused_reader': 50, 'refused_backup': 50,
           'refused_creation': 10, 'opened_writer': 200, 'opened_reader': 200, 'backups': 200, 'collections': 500, 'compared': 3000, 'updates': 100000},
     rule='the system calls of the library that open, allocate, map, read and write files are replaced: at generated moments they fail, once, a few times or until further notice, with ENOSPC, EMFILE, ENOMEM, EIO, EACCES or EINTR. '
          'Histories of updates that grow the database, lookups, collections, RemoveAll, backups, openings and reopenings run through this, in every storage mode; each call is judged by what it returns, '
          'and the contents, by lookups and iteration through writer and reader, are compared with a map once the system gives again and after a reopen; distinct = distinct (refused call, kind of fault, storage mode)',
     assumptions=['a page of a file that was allocated can be written (no SIGBUS)', 'the lock file of the directory can be opened'],
     jobs=lambda t: [flt(15, T(t, 90, 900), T(t, 8, 16), timeout=T(t, 240, 800)),
                     flt(2, T(t, 80, 600), T(t, 4, 8), timeout=T(t, 240, 800)),
                     flt(15, T(t, 25, 300), T(t, 4, 8), fl='asan', timeout=T(t, 240, 800))])
