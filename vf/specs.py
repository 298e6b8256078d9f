"""What each check builds and runs."""
import os

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1

COMMON_ASSUMPTIONS = [
    'serialization is done by a stand-in for the magistrate library (shim/), which is not part of this repository',
    'OpenMPI over shared memory on one host; the interposed MPI layer only delays and reorders within what MPI allows',
    'held on the executions observed, nothing more',
]
DIST = ['chaos.cc']
CHECKS = {}


def check(pid, builds, rule, require=None, assumptions=None, keys=None):
    # keys: which monitors (prefixes of their keys) of a harness shared with other properties speak for this one
    def deco(fn):
        CHECKS[pid] = dict(builds=builds, rule=rule, runs=fn, require=require or {}, assumptions=assumptions or [], keys=keys)
        return fn
    return deco


def get(pid):
    return CHECKS[pid]


def dist(exe, variant='asan', extra=()):
    return [(variant, {exe: [exe + '.cc'] + DIST + list(extra)}, None)]


@check('C01', dist('am'), 'one case is one message: its kind, size, origin, destination, rank count and send-size limit; '
       'every delivery is judged; the order in which ranks were served is counted as a case too',
       require=dict(deliveries=2000))
def c01(rng, thorough):
    runs = []
    n = 60 if thorough else 10
    for i in range(n):
        np_ = [4, 3, 5, 2, 4, 6, 1, 4, 3, 7][i % 10]
        mx = rng.choice([512, 1000, 2000, 4096, 16384, 1 << 30, 1 << 30])
        runs.append(dict(exe='am', np=np_, args=['--vt_max_mpi_send_size=%d' % mx],
                         env=dict(ROUNDS=8 if thorough else 5, PER_RANK=40, CHAOS=0 if i == 3 else 1)))
    return runs


@check('C02', dist('term'), 'one case is one epoch: its kind, number of messages, depth, rank count and which ranks finished last',
       require=dict(epochs=150, epoch_messages=2000, actions=100))
def c02(rng, thorough):
    runs = []
    n = 60 if thorough else 14
    for i in range(n):
        np_ = [4, 3, 5, 2, 4, 6, 1, 4, 3, 7, 2, 4, 5, 4][i % 14]
        a = []
        if i % 5 == 3:
            a = ['--vt_term_rooted_use_ds']
        if i % 5 == 4:
            a = ['--vt_term_rooted_use_wave']
        runs.append(dict(exe='term', np=np_, args=a, env=dict(ROUNDS=30 if thorough else 12, PROBE=1 if i % 4 == 1 else 0)))
    return runs


@check('C03', dist('rt_coll'), 'one case is one collective operation: its kind, operator, payload, root, rank count and the order in which ranks entered',
       require=dict(barriers=200, reductions=600, results=400, scatters=20, mpi_operations=200))
def c03(rng, thorough):
    runs = []
    for i in range(48 if thorough else 12):
        runs.append(dict(exe='rt_coll', np=[4, 3, 5, 2, 7, 1, 6, 8, 4, 3, 5, 2][i % 12], env=dict(ROUNDS=40 if thorough else 12, CHAOS=0 if i % 6 == 5 else 1)))
    return runs


@check('C04', dist('rt_elem'), 'one case is one way to construct a collection (form, map, dimensions, ranks) or one placement of its elements reached by migration',
       require=dict(deliveries=5000, migrations=200, collections=80, elements_audited=2000, modifications=100))
def c04(rng, thorough):
    runs = []
    for i in range(60 if thorough else 12):
        runs.append(dict(exe='rt_elem', np=[4, 3, 2, 5, 6, 1, 7, 4, 3, 2, 5, 3][i % 12], env=dict(ROUNDS=8 if thorough else 4)))
    runs.append(dict(exe='rt_elem', np=4, env=dict(REVISIT=1)))
    return runs


def comp(exe, variant='asan', extra=()):
    return [(variant, {exe: [exe + '.cc'] + list(extra)}, None)]


def comp_runs(exe, n, thorough, deep=16, **kw):
    """n runs of a single-process harness with different seeds"""
    return [dict(exe=exe, timeout=600 if thorough else 200, **kw) for _ in range(deep if thorough else n)]


@check('C05', dist('rt_phase') + dist('rt_elem'), 'one case is one placement of the elements of two collections, over which broadcasts and reductions run, or one set of members of a collection whose members come and go',
       require=dict(member_broadcasts=150, member_reductions=100, broadcasts=500, broadcast_deliveries=8000, reductions=300, reduce_results=300, phases=60), keys=('broadcast', 'reduce'))
def c05(rng, thorough):
    return [dict(exe='rt_phase', np=[3, 4, 2, 5, 6, 1, 7, 4, 8, 3][i % 10], env=dict(ROUNDS=8 if thorough else 3)) for i in range(50 if thorough else 12)] + \
        [dict(exe='rt_elem', np=[3, 4, 2, 1, 5, 7][i % 6], env=dict(ROUNDS=8 if thorough else 4)) for i in range(24 if thorough else 6)]


@check('C06', dist('rt_phase'), 'one case is one phase: the balancer chosen and the placement of the elements of two collections it led to',
       require=dict(phases=60, moves=100, loads_judged=600, edges_judged=1500, elements_audited=600), keys=('element', 'lb', 'phase'))
def c06(rng, thorough):
    return [dict(exe='rt_phase', np=[4, 3, 5, 2, 7, 6, 3, 8, 1, 4][i % 10], env=dict(ROUNDS=8 if thorough else 3, PHASES=10)) for i in range(50 if thorough else 12)]


NPS = [4, 3, 5, 2, 7, 1, 6, 8, 4, 3, 5, 2]


def dist_runs(exe, n, thorough, deep=96, **env):
    return [dict(exe=exe, np=NPS[i % 12], env=dict(env, CHAOS=0 if i % 7 == 6 else 1)) for i in range(deep if thorough else n)]


@check('C07', dist('rt_ckpt'), 'one case is one checkpoint: the shape and number of the elements, the directory layout, and what happened between saving and restoring',
       require=dict(checkpoints=60, overwritten=8, restored_in_place=25, restored=25, continued=6, elements_judged=5000, messages=3000, moves=1000, phases=20))
def c07(rng, thorough):
    return dist_runs('rt_ckpt', 24, thorough)


@check('C08', dist('rt_rdma', extra=['win.cc']), 'one case is one window: its kind, size, layout over the ranks and the operations on it between two synchronisations',
       require=dict(operations=1000, windows=40, set_windows=40, element_windows=30, element_phases=10, cells_read=5000, fetches=300, actions=100))
def c08(rng, thorough):
    return dist_runs('rt_rdma', 24, thorough)


@check('C09', dist('rt_group'), 'one case is one group: its member ranks, how it was described, who made it and the rank count; or one broadcast, reduction or communicator over it',
       require=dict(broadcasts=800, deliveries=1500, rooted_groups=100, collective_groups=100, reductions=150, reduce_results=60, communicators=60, deleted_groups=60))
def c09(rng, thorough):
    return dist_runs('rt_group', 24, thorough)


@check('C10', dist('rt_obj'), 'one case is one operation on an object group: what it is, who asks and whom it reaches',
       require=dict(object_groups=300, objgroup_runs=6000, operations=4000, multicasts=300, reductions=60, replacements=20, destroyed=200))
def c10(rng, thorough):
    return dist_runs('rt_obj', 24, thorough, ONLY=0)


@check('C11', dist('rt_obj'), 'one case is one callback: its kind, its target, the ranks that trigger it and how often',
       require=dict(callbacks_made=300, callbacks_run=2000, callbacks_triggered=1000, callbacks_carried=500, one_time_callbacks=30))
def c11(rng, thorough):
    return dist_runs('rt_obj', 24, thorough, ONLY=1)


@check('C12', dist('rt_chain'), 'one case is one step of a chain: how it was added, what follows, its further work and the layout of the collections',
       require=dict(chain_blocks=100, steps_made=2500, steps_started=2500, steps_merged=200, works=10000, migrations=150))
def c12(rng, thorough):
    return dist_runs('rt_chain', 16, thorough, deep=64)


@check('C13', dist('rt_mem', variant='nopool'), 'one case is one thing whose life is followed: a message, a value, captured state, an element or an object, from its construction to its destruction',
       require=dict(message=4000, capture=100, element=400, object=100, value=4000, sends=500, reductions=300, migrations=150, quiescence_checks=500),
       assumptions=['leaks inside libraries (MPI, libc) are left out'])
def c13(rng, thorough):
    return [dict(r, leaks=1) for r in dist_runs('rt_mem', 24, thorough)]


@check('C14', dist('rt_trace', variant='trace'), 'one case is one trace file read back: the rank, its options, when tracing was on, and what the program recorded and did meanwhile',
       require=dict(handlers=1000, records_read=2000, sends=500, links=500, processing=2000, idle=1000, creations=1000, flushes=10, phases_off=4, disabled=20))
def c14(rng, thorough):
    return dist_runs('rt_trace', 24, thorough)


@check('C15', comp('c_pool'), 'one case is one state of the pool: sizes, kinds and number of live blocks',
       require=dict(alloc_small=5000, alloc_medium=5000, alloc_large=2000, free=5000))
def c15(rng, thorough):
    return comp_runs('c_pool', 6, thorough, leaks=1)


@check('C16', comp('c_epoch'), 'one case is one set operation or one epoch handled by a window, with the state it met',
       require=dict(epochs_allocated=1000, set_ops=5000))
def c16(rng, thorough):
    return comp_runs('c_epoch', 6, thorough)


@check('C17', comp('c_bits') , 'one case is one identifier or one envelope with the values packed into it', require=dict(identifiers=2000, envelopes=500))
def c17(rng, thorough):
    return comp_runs('c_bits', 6, thorough)


@check('C18', comp('c_index'), 'one case is one index box, one map of a number of elements to a number of ranks, or one cache state',
       require=dict(mapped=100000, cache_evictions=2000, unbounded_mapped=2000))
def c18(rng, thorough):
    return comp_runs('c_index', 6, thorough)


@check('C19', comp('c_region'), 'one case is one region, how it was derived, its size and the number of parts it was split in',
       require=dict(ranges=500, lists=500, shallow_lists=500, splits=50000))
def c19(rng, thorough):
    return comp_runs('c_region', 6, thorough)


@check('C20', comp('c_stream'), 'one case is one document or stream: its length, chunk size, compressed length',
       require=dict(streams=200, documents=200, containers=400, cut_streams=40, corrupted_streams=80))
def c20(rng, thorough):
    return comp_runs('c_stream', 6, thorough)


@check('C23', comp('c_data'), 'one case is one container or estimate and the operations or values it went through',
       require=dict(pushes=2000, pops=1000, priority_pops=500, histograms=100, regressions=20, load_moments=100))
def c23(rng, thorough):
    return comp_runs('c_data', 6, thorough, leaks=1)


@check('C24', comp('c_text'), 'one case is one name, amount of memory or time and the text printed for it',
       require=dict(names=20, memory_amounts=200, times_printed=200))
def c24(rng, thorough):
    return comp_runs('c_text', 4, thorough)


@check('C25', comp('c_sched') + [('asan', {'rt_sched': ['rt_sched.cc'] + DIST}, None), ('prio', {'rt_sched_prio': ['rt_sched.cc'] + DIST}, None),
                                 ('ult', {'rt_sched_ult': ['rt_sched.cc'] + DIST}, None)],
       'one case is one action run with what was queued then, one set of due time triggers, or one suspension of a thread',
       require=dict(tasks=5000, progress_calls=5000, priorities=2000, suspensions=500, threads=200, messages=500, once_triggers=100))
def c25(rng, thorough):
    runs = comp_runs('c_sched', 3, thorough)
    k = 4 if thorough else 1
    for i in range(2 * k):
        for exe in ('rt_sched', 'rt_sched_prio', 'rt_sched_ult'):
            runs.append(dict(exe=exe, np=[1, 3, 2, 4][(i + len(exe)) % 4]))
    return runs


@check('C26', comp('c_pack') + dist('rt_misc'), 'one case is one component pack (graph, components asked for, order), one tree position or one epoch graph',
       require=dict(packs=3000, graphs=300, epoch_ids=300, trees=20))
def c26(rng, thorough):
    runs = comp_runs('c_pack', 2, thorough)
    for i in range(24 if thorough else 8):
        runs.append(dict(exe='rt_misc', np=[1, 2, 3, 4, 5, 7, 8, 6][i % 8]))
    return runs


@check('C21', dist('rt_lb'), 'one case is one random history of what an element records, one document written and read back, one configuration or specification file, or one set of phases given to the load models',
       require=dict(recordings=600, roundtrips=900, lb_configs=900, specs=90, model_cases=600))
def c21(rng, thorough):
    return [dict(exe='rt_lb', np=[1, 2, 3, 5][i % 4]) for i in range(16 if thorough else 8)]


@check('C22', comp('c_args'), 'one case is one command line with its files and application defaults (which options come from where, how the stretches alternate), or one configuration written and read back',
       require=dict(parses=1500, yaml_written=300, ini_written=300, rejections=800))
def c22(rng, thorough):
    return comp_runs('c_args', 4, thorough)
