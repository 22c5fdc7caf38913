"""One function per property."""
import random

import conc
import flow
import graph
import security
import values
import vlib
from vlib import Conformance, SEED, TIER

QUICK = TIER == 'quick'
CHECKS = {}
_b = None


def builder():
    global _b
    if _b is None:
        _b = vlib.Builder()
    return _b


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


def rng(salt):
    return random.Random('%d/%s/%s' % (SEED, TIER, salt))


def pick(quick, thorough):
    return quick if QUICK else thorough


GRAPH_ASSUME = [
    'graph_cache.cpp, context.cpp and gid_utils.cpp are compiled against stand-ins for the ROS '
    'headers and libraries (shim/), as the real ones are not installed here',
    'the specification is checked exhaustively within the constants of each configuration; the '
    'code is bound to it on the recorded executions only']


def gconf(rep, focus, module='GraphTrace', **kw):
    rep.assumptions = GRAPH_ASSUME
    return Conformance(rep.prop, graph.driver(builder()), module, focus, post=graph.post, **kw)


def finish(rep, *confs):
    for c in confs:
        rep.conf(c)


@check('C01')
def c01(rep):
    c = gconf(rep, ['ret', 'cnt', 'ids', 'query'])
    r = rng('C01')
    try:
        c.run(graph.model_walks(rep, 'endpoints', r, 'ci', want=pick(6000, None)))
        c.run(graph.histories(r, pick(24, 200), pick(80, 160), ['add', 'add', 'add', 'rm', 'rm', 'addp', 'rmp', 'upd'],
                              'ci', every=2))
        c.run(graph.crowds(r, pick([20, 40], [20, 60, 120, 250]), ['add', 'add', 'add', 'rm', 'addp', 'rmp'], 'ci'))
        if not QUICK:
            c.run(graph.model_walks(rep, 'attrib', r, 'ci'))
            c.run(graph.histories(r, 100, 150, graph.ALL, 'ci', every=3))
        c.run(graph.sticky(r, pick(80, 800), pick(60, 120), ['add', 'add', 'rm'], 'ci'))
        c.run(graph.masses_of(r, ['endpoints', 'topics'], pick([260], [70, 140, 300, 600]), 'ci'))
        c.run(graph.wraps(r, ['w', 'r'], 'ci', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C02')
def c02(rep):
    c = gconf(rep, ['nodes', 'rmpret', 'query'])
    r = rng('C02')
    K = ['addp', 'addp', 'rmp', 'upd', 'upd', 'addn', 'addn', 'rmn', 'asw', 'asr', 'add', 'rm']
    try:
        c.run(graph.model_walks(rep, 'parts', r, 'n', want=pick(5000, None)))
        c.run(graph.histories(r, pick(24, 200), pick(80, 160), K, 'n', every=1))
        c.run(graph.crowds(r, pick([12, 30], [30, 60, 120]), K, 'n'))
        c.run(graph.model_walks(rep, 'nodes2', r, 'n', want=pick(3000, None)))
        c.run(graph.sticky(r, pick(80, 800), pick(60, 120), K, 'n'))
        c.run(graph.masses_of(r, ['participants', 'nodes'], pick([260], [70, 140, 300, 600]), 'n'))
        c.run(graph.runons(r, pick(6, 60), pick(40, 80), K, 'n'))
        c.run(graph.wraps(r, ['part', 'reg', 'upd', 'node'], 'n', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C03')
def c03(rep):
    c = gconf(rep, ['nodes', 'bynode', 'msg'])
    r = rng('C03')
    K = ['addp', 'upd', 'addn', 'addn', 'rmn', 'asw', 'asw', 'asr', 'asr', 'dsw', 'dsw', 'dsr', 'dsr', 'rmp']
    try:
        c.run(graph.model_walks(rep, 'nodes1', r, 'nb', prelude=True))
        c.run(graph.histories(r, pick(24, 200), pick(80, 160), K, 'nb', every=1, discover=True))
        c.run(graph.crowds(r, pick([12], [12, 30, 60]), graph.BUILD_UP, 'nb'))
        c.run(graph.model_walks(rep, 'nodes2', r, 'nb', want=pick(3000, None), prelude=True))
        c.run(graph.sticky(r, pick(60, 600), pick(60, 120), K, 'nb', False))
        c.run(graph.masses_of(r, ['nodes', 'ids', 'repeats'], pick([260], [70, 140, 300, 600]), 'nb'))
        c.run(graph.runons(r, pick(6, 60), pick(40, 80), ['asw', 'asr', 'dsw', 'dsr', 'asw', 'asr', 'rmn', 'addn'], 'nb'))
        c.run(graph.wraps(r, ['node', 'asw', 'asr'], 'nb', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C04')
def c04(rep):
    c = gconf(rep, ['msg', 'pub', 'nodes', 'bynode'])
    r = rng('C04')
    K = ['addp', 'upd', 'addn', 'addn', 'rmn', 'asw', 'asw', 'asr', 'asr', 'dsw', 'dsr', 'rmp', 'addp']
    try:
        c.run(graph.model_walks(rep, 'nodes1', r, '', relay=True, prelude=True))
        c.run(graph.histories(r, pick(24, 200), pick(60, 120), K, 'nb', every=2, nctx=2, relay=True, discover=True))
        c.run(graph.histories(r, pick(40, 300), pick(40, 80), ['ctx'] * 8 + ['upd', 'addn', 'asw', 'asr'], 'b', every=8, gids=3, parts=2,
                              names=2, nss=1, modes=('ok', 'ok', 'ok', 'fail')))
        c.run(graph.model_walks(rep, 'nodes2', r, '', want=pick(3000, None), relay=True, prelude=True))
        c.run(graph.masses_of(r, ['nodes', 'ids', 'repeats'], pick([260], [70, 140, 300, 600]), 'n'))
        c.run(graph.wraps(r, ['node', 'asw', 'asr', 'ctx'], 'nb', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C05')
def c05(rep):
    c = gconf(rep, ['ids', 'info', 'query'])
    r = rng('C05')
    try:
        c.run(graph.model_walks(rep, 'attrib', r, 'i', want=pick(5000, None)))
        c.run(graph.histories(r, pick(30, 240), pick(70, 140), graph.BUILD_UP, 'i', every=2))
        c.run(graph.crowds(r, pick([12, 40], [40, 80, 160]), graph.BUILD_UP, 'i'))
        c.run(graph.sticky(r, pick(80, 800), pick(60, 120), graph.BUILD_UP, 'i'))
        c.run(graph.masses_of(r, ['endpoints', 'ids', 'participants'], pick([260], [70, 140, 300, 600]), 'i'))
        c.run(graph.runons(r, pick(6, 60), pick(40, 80), graph.BUILD_UP, 'i'))
        c.run(graph.wraps(r, ['w', 'r', 'part', 'upd', 'asw', 'asr'], 'i', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C06')
def c06(rep):
    c = gconf(rep, ['nt', 'bynode', 'query'])
    r = rng('C06')
    try:
        c.run(graph.model_walks(rep, 'attrib', r, 'tb', want=pick(4000, None)))
        c.run(graph.model_walks(rep, 'endpoints', r, 't', want=pick(3000, None)))
        c.run(graph.histories(r, pick(30, 240), pick(70, 140), graph.BUILD_UP, 'tb', every=2))
        c.run(graph.crowds(r, pick([12, 40], [40, 80, 160]), graph.BUILD_UP, 'tb'))
        c.run(graph.sticky(r, pick(80, 800), pick(60, 120), graph.BUILD_UP, 'tb'))
        c.run(graph.masses_of(r, ['types', 'topics', 'ids'], pick([260], [70, 140, 300, 600]), 'tb'))
        c.run(graph.runons(r, pick(6, 60), pick(40, 80), graph.BUILD_UP, 'tb'))
        c.run(graph.wraps(r, ['w', 'r', 'part', 'upd', 'node', 'asw', 'asr'], 'tb', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


@check('C07')
def c07(rep):
    c = gconf(rep, ['cb', 'ctxcb'])
    r = rng('C07')
    try:
        for s, q in (('endpoints', 2500), ('parts', 2500), ('nodes1', None), ('attrib', 1500)):
            c.run(graph.model_walks(rep, s, r, '', want=pick(q, None), extra='cb'))
        c.run(graph.histories(r, pick(24, 200), pick(120, 240), graph.ALL + ['cb', 'ctx'], 'cintb', every=6, cb=True,
                              modes=('ok', 'ok', 'fail', 'timeout', 'nopub', 'nocb')))
        c.run(graph.probe_histories(r, pick(10, 60), 60))
        c.run(graph.masses_of(r, graph.MASSES, pick([260], [70, 140, 300, 600]), '', cb=True))
        c.run(graph.called_back(graph.wraps(r, ['w', 'part', 'upd', 'node', 'asr', 'ctx'], 'c', (256, 65536))))
        programs(rep, lambda: conc.callback_programs(r, pick(2, 3), pick(20, 200), pick(1000, 20000)))
    finally:
        finish(rep, c)


@check('C08')
def c08(rep):
    c = gconf(rep, ['fault', 'leak'])
    r = rng('C08')
    try:
        c.run(graph.shapes(rep, r))
        c.run(graph.fault_histories(r, pick(24, 160)))
        c.run(graph.big_faults(r, pick([6, 11, 24], [5, 9, 12, 17, 33, 70])))
    finally:
        finish(rep, c)


@check('C11')
def c11(rep):
    c = gconf(rep, ['failpub', 'pub', 'nodes', 'bynode', 'info'])
    r = rng('C11')
    try:
        for s, q in (('homonyms', None), ('names', 1200), ('twins', 1600)) + (() if QUICK else (('deep', 30000),)):
            c.run(graph.context_walks(rep, s, r, want=pick(q, None if s != 'deep' else q)))
        c.run(graph.histories(r, pick(40, 300), pick(60, 120), ['ctx'] * 8 + ['add', 'rm', 'upd', 'addn', 'asw', 'asr', 'dsw'],
                              'nbi', every=1, discover=True, gids=6, names=2, nss=2, parts=3,
                              modes=('ok', 'ok', 'fail', 'timeout', 'badalloc', 'nopub', 'nocb')))
        programs(rep, lambda: conc.context_programs(r, pick(2, 3), pick(20, 100), pick(20, 200), pick(1000, 20000),
                                                    modes=('ok', 'fail', 'fail', 'timeout'), share=pick(.4, 1)))
    finally:
        finish(rep, c)


@check('C12')
def c12(rep):
    c = gconf(rep, ['conv', 'nodes', 'bynode', 'info'])
    r = rng('C12')

    def model(name, cfg):
        rep.model('Discovery/' + name, vlib.model_check('Discovery', cfg.replace('EMITON', 'FALSE'), workers=vlib.NCPU,
                                                        heap='8g'))

    def cfg(name):
        return open(vlib.os.path.join(vlib.SPEC, 'Disc_%s.cfg' % name)).read()
    try:
        c.run(graph.net_walks(rep, r, want=pick(3000, None)))
        c.run(graph.networks(r, pick(60, 500), pick(60, 150)))
        c.run(graph.big_networks(r, pick([70, 140], [40, 70, 140, 300])))
        model('live', cfg('live'))
        if QUICK:
            model('trio, 1 operation', cfg('trio').replace('MaxOps = 2', 'MaxOps = 1'))
        else:
            model('trio', cfg('trio'))
            model('deep', cfg('deep'))
    finally:
        finish(rep, c)


@check('C28')
def c28(rep):
    c = gconf(rep, ['owner', 'ends', 'node', 'bynode', 'told'], module='SystemTrace')
    r = rng('C28')

    def cfg(name):
        with open(vlib.os.path.join(vlib.SPEC, 'Sys_%s.cfg' % name)) as f:
            return f.read().replace('EMITON', 'FALSE')

    def model(name, text):
        rep.model('System/' + name, vlib.model_check('MCSystem', text, workers=vlib.NCPU, heap='8g'))
    try:
        c.run(graph.system_walks(rep, 'one', r, want=pick(4000, None), ops=pick(2, 3)))
        c.run(graph.system_walks(rep, 'client', r, want=pick(4000, None), ops=2))
        c.run(graph.systems(r, pick(60, 600), pick(120, 250)))
        c.run(graph.systems(r, pick(4, 40), pick(400, 1000), 4))
        model('live', cfg('live'))
        for inv in ('NeverUnknown', 'NeverBehind', 'NeverFound'):
            text = cfg('one').split('INVARIANTS')[0] + 'INVARIANTS\n  %s\n' % inv
            rep.model('System/one, %s (refuted)' % inv, vlib.model_refuted('MCSystem', text, workers=vlib.NCPU))
        model('one', cfg('one'))
        if not QUICK:
            for name in ('client', 'two', 'same', 'both'):
                model(name, cfg(name))
    finally:
        finish(rep, c)


@check('C26')
def c26(rep):
    c = gconf(rep, ['dump'])
    r = rng('C26')
    try:
        c.run(graph.model_walks(rep, 'attrib', r, 'd', want=pick(2500, None)))
        c.run(graph.model_walks(rep, 'parts', r, 'd', want=pick(2500, None)))
        c.run(graph.histories(r, pick(30, 240), pick(70, 140), graph.BUILD_UP, 'd', every=2))
        c.run(graph.crowds(r, pick([12, 40], [40, 80, 160]), graph.BUILD_UP, 'd'))
        # one instant of the cache: prints while other threads change the graph
        programs(rep, lambda: conc.dump_programs(r, pick(60, 500), pick(2, 3), pick(1500, 12000)))
        c.run(graph.sticky(r, pick(60, 600), pick(60, 120), graph.BUILD_UP, 'd'))
        c.run(graph.masses_of(r, graph.MASSES, pick([260], [70, 140, 300, 600]), 'd'))
        c.run(graph.wraps(r, ['w', 'r', 'part', 'upd', 'node', 'asw'], 'd', pick((256, 65536), (256, 512, 65536, 131072))))
    finally:
        finish(rep, c)


CONC_ASSUME = [
    'the sources are compiled with -fsanitize=thread against harness/conc_rt.cpp, which runs the threads one at a time and '
    'switches between them at accesses to memory and at operations on locks: sequentially consistent executions, with '
    'unsynchronised conflicting accesses reported as such',
    'schedules: all with at most the given number of preemptions up to a limit of runs per program, then random ones']


def programs(rep, make):
    """Concurrent programs judged by LinTrace."""
    rep.assumptions = rep.assumptions + CONC_ASSUME
    p = conc.Programs(rep.prop, conc.driver(builder()))
    try:
        p.run(make())
    finally:
        p.report(rep)


def lock_model(rep):
    """The locking of a context, and that either lock is needed (the model would notice)."""
    cfg = open(vlib.os.path.join(vlib.SPEC, 'Ctx_steps.cfg')).read()
    rep.model('ContextSteps', vlib.model_check('MCContextSteps', cfg, workers=vlib.NCPU))
    if not QUICK:
        rep.model('ContextSteps, 3 threads', vlib.model_check(
            'MCContextSteps', cfg.replace('{1, 2}', '{1, 2, 3}').replace('WorksAll', 'WorksSmall'), workers=vlib.NCPU, heap='12g'))
    live = cfg.replace('SPECIFICATION Spec', 'SPECIFICATION FairSpec').replace('WorksAll', 'WorksSmall').replace(
        'AnnounceIsState', 'EveryCallReturns')
    rep.model('ContextSteps, every call returns', vlib.model_check(
        'MCContextSteps', live.replace('MaxCalls = 3', 'MaxCalls = 2') if QUICK else live, workers=vlib.NCPU))
    for k in ('UseN', 'UseG'):
        vlib.model_refuted('MCContextSteps', cfg.replace(k + ' = TRUE', k + ' = FALSE'), workers=vlib.NCPU)
        rep.extra.setdefault('refuted_variants', []).append('ContextSteps with %s = FALSE' % k)


@check('C09')
def c09(rep):
    rep.assumptions = GRAPH_ASSUME
    lock_model(rep)
    programs(rep, lambda: conc.cache_programs(rng('C09'), pick(2, 3), pick(20, 120), pick(40, 500), pick(3000, 40000)) +
             conc.torn_programs(rng('C09/torn'), pick(.25, 1), pick(3, 6), pick(400, 2000)))


@check('C10')
def c10(rep):
    rep.assumptions = GRAPH_ASSUME
    lock_model(rep)
    programs(rep, lambda: conc.context_programs(rng('C10'), pick(2, 3), pick(30, 150), pick(60, 400), pick(2500, 40000)))


def pools(r):
    """Calls of the functions without state, by kind, as lines for the drivers."""
    def sel(script, *ops):
        out = [l for l in script if l.split('\t')[0] in ops and len(l) < 3000]
        return r.sample(out, min(len(out), 150))
    v = values
    hs = v.hashes(r, 40)
    d = {'compat': sel(v.compat_random(r, 150, lambda r: '400,%d' % r.randint(0, 120)), 'compat'),
         'sub': sel(v.best_random(r, 'sub', 80, 6), 'best'), 'pub': sel(v.best_random(r, 'pub', 80, 6), 'best'),
         'topic': sel(v.topic_random(r, 150), 'topic'),
         'svc': ['svc\t' + v.anyprofile(r, r.choice([.3, 1])) for _ in range(80)],
         'enc': sel(hs, 'enc'), 'parse': sel(hs, 'parse'), 'trip': sel(hs, 'trip'),
         'clamp': sel(v.clamps(r, 300), 'clamp'), 'gid': sel(v.gids(r, 200), 'gid')}
    d['look'], d['+look'] = security.small(r)
    return d


@check('C27')
def c27(rep):
    rep.assumptions = GRAPH_ASSUME + CONC_ASSUME
    c = gconf(rep, ['ret', 'cnt', 'ids', 'nodes', 'rmpret', 'bynode', 'msg', 'info', 'nt', 'cb', 'pub', 'failpub', 'dump', 'query'])
    r = rng('C27')
    p = conc.Independent(rep.prop, conc.driver(builder()))
    cfg = open(vlib.os.path.join(vlib.SPEC, 'Independence.cfg')).read()
    rep.model('Independence', vlib.model_check('Independence', cfg.replace('Calls = 4', 'Calls = %d' % pick(4, 6)),
                                               workers=vlib.NCPU, heap='8g'))
    rep.model('Independence, every call returns', vlib.model_check('Independence', cfg.replace(
        'SPECIFICATION Spec', 'SPECIFICATION FairSpec').replace('OthersUntouched', 'EveryCallReturns').replace('Calls = 4', 'Calls = 3'),
        workers=vlib.NCPU))
    for k in ('SharedScratch', 'OneLock'):
        vlib.model_refuted('Independence', cfg.replace(k + ' = FALSE', k + ' = TRUE'), workers=vlib.NCPU)
        rep.extra.setdefault('refuted_variants', []).append('Independence with %s = TRUE' % k)
    try:
        c.run(graph.histories(r, pick(16, 120), pick(60, 120), graph.ALL + ['ctx', 'cb'], 'cintbd', every=6, cb=True, nctx=3,
                              modes=('ok', 'ok', 'fail', 'timeout')))
        c.run(graph.lockstep(r, pick(40, 300), pick(60, 120)))
        p.run(conc.independent_programs(r, pick(1, 2), pick(30, 150), pick(60, 600), pick(300, 6000), pools(r)))
    finally:
        finish(rep, c)
        p.report(rep)
        rep.extra['histories_judged_by_part'] = p.parts


def build_all():
    b = builder()
    graph.driver(b)
    conc.driver(b)
    security.driver(b)
    values.qos_driver(b)
    values.util_driver(b)
    flow.driver(b)


def replay(d):
    b = builder()
    if d['driver'] == 'conc_driver':
        kind = conc.Independent if d['property'] == 'C27' else conc.Programs
        bad = kind(d['property'], conc.driver(b)).once(d['script'])
        print('reproduced: ' + str(bad[2]) if bad else 'not reproduced')
        return 1 if bad else 0
    drivers = {'graph_driver': (graph.driver, graph.post, False),
               'security_driver': (security.driver, None, True),
               'qos_driver': (values.qos_driver, None, False),
               'util_driver': (values.util_driver, None, False),
               'flow_driver': (flow.driver, None, False)}
    mk, post, scratch = drivers[d['driver']]
    c = Conformance(d['property'], mk(b), d['module'], d['focus'], post=post, scratch=scratch,
                    consts=CONSTS.get(d['module'], ''))
    bad = c.once(d['script'])
    if bad:
        print('reproduced at command %d: %s' % (bad[0] + 1, bad[1]))
        return 1
    print('not reproduced')
    return 0


# ------------------------------------------------------------------ security
SEC_ASSUME = [
    'scratch enclaves in a directory the check creates; unreadable entries are looked up as an '
    'unprivileged user, if the sandbox allows changing to one',
    'paths are compared up to repeated slashes']


def sconf(rep, focus):
    rep.assumptions = SEC_ASSUME
    return Conformance(rep.prop, security.driver(builder()), 'SecurityTrace', focus, scratch=True)


def security_check(name, focus, plan):
    @check(name)
    def run(rep):
        c = sconf(rep, focus)
        r = rng(name)
        try:
            for f in plan:
                c.run(f(rep, r))
        finally:
            finish(rep, c)


def _walk(s, q):
    return lambda rep, r: security.model_walks(rep, s, r, want=pick(q, None))


security_check('C22', ['outcome'], [
    lambda rep, r: security.single_faults(r, pick(1, 6)),
    lambda rep, r: security.styles(r),
    _walk('A', 1200), _walk('B', 1200),
    lambda rep, r: security.histories(r, pick(16, 160), 60)])
security_check('C23', ['path'], [
    lambda rep, r: security.styles(r),
    lambda rep, r: security.single_faults(r, pick(1, 6)),
    _walk('C', 1000),
    lambda rep, r: security.histories(r, pick(24, 200), 60)])
security_check('C24', ['p11'], [
    lambda rep, r: security.texts(r, pick(400, 6000)),
    _walk('A', 1000), _walk('B', 800), _walk('C', 800),
    lambda rep, r: security.single_faults(r, pick(1, 6)),
    lambda rep, r: security.histories(r, pick(24, 200), 60)])
security_check('C25', ['repeat'], [
    lambda rep, r: security.histories(r, pick(30, 240), 80, enclaves=3),
    lambda rep, r: security.styles(r),
    lambda rep, r: security.parallel(r, pick(6, 40), pick(150, 600)),
    _walk('A', 1200)])


# ------------------------------------------------------- stateless operations
VAL_ASSUME = [
    'qos.cpp, time_utils.cpp and gid_utils.cpp are compiled against stand-ins for the ROS headers and '
    'libraries (shim/), as the real ones are not installed here',
    'durations of profiles are normalized (less than one second of nanoseconds)']


QOS_CONSTS = '  Unspecified <- DUnspecified\n  BestAvailable <- DBestAvailable\n  Infinite <- DInfinite\n'
CONSTS = {'QosTrace': QOS_CONSTS, 'FlowTrace': QOS_CONSTS + '  DMax <- DLongest\n'}


def value_check(name, mk, module, focus, plan):
    @check(name)
    def run(rep):
        rep.assumptions = VAL_ASSUME
        c = Conformance(rep.prop, mk(builder()), module, focus, consts=CONSTS.get(module, ''))
        r = rng(name)
        try:
            for f in plan:
                s = f(rep, r)
                if s:
                    c.run(s)
        finally:
            finish(rep, c)


def _model(module, cfg):
    def f(rep, r):
        rep.model(module, vlib.model_check(module, open(vlib.os.path.join(vlib.SPEC, cfg)).read(), workers=vlib.NCPU))
    return f


value_check('C13', values.qos_driver, 'QosTrace', ['verdict'], [
    lambda rep, r: values.compat_model(rep, r, lambda r: 'nil'),
    lambda rep, r: values.compat_random(r, pick(6000, 60000), lambda r: r.choice(['nil', '900'])),
    lambda rep, r: values.chains(r, 'compat', pick(60, 600), 60)])
value_check('C14', values.qos_driver, 'QosTrace', ['reason'], [
    lambda rep, r: values.compat_model(rep, r, lambda r: '900,%d' % r.choice([0, 1, 2, r.randint(3, 300)])),
    lambda rep, r: values.every_size(r),
    lambda rep, r: values.chains(r, 'reason', pick(50, 500), 60),
    lambda rep, r: values.compat_random(r, pick(2500, 30000), lambda r: '%d,%d,900,%s' % (
        r.randint(0, 90), r.randint(60, 500), r.choice(['nil', 'nilnz', 'nov', 'nov0'])))])
value_check('C15', values.qos_driver, 'QosTrace', ['sub'], [
    lambda rep, r: values.best_model(rep, r, 'sub', want=pick(8000, None)),
    lambda rep, r: values.best_random(r, 'sub', pick(1500, 20000), pick(12, 40)),
    lambda rep, r: values.many(r, 'sub', pick([70, 257], [33, 65, 129, 256, 257, 700]), pick(12, 40)),
    lambda rep, r: values.chains(r, 'sub', pick(80, 800), 40)])
value_check('C16', values.qos_driver, 'QosTrace', ['pub'], [
    lambda rep, r: values.best_model(rep, r, 'pub', want=pick(8000, None)),
    lambda rep, r: values.best_random(r, 'pub', pick(1500, 20000), pick(12, 40)),
    lambda rep, r: values.many(r, 'pub', pick([70, 257], [33, 65, 129, 256, 257, 700]), pick(12, 40)),
    lambda rep, r: values.chains(r, 'pub', pick(80, 800), 40)])
value_check('C17', values.qos_driver, 'QosTrace', ['topic'], [
    lambda rep, r: values.topic_model(rep, r, want=pick(8000, None)),
    lambda rep, r: values.topic_random(r, pick(5000, 60000)),
    lambda rep, r: values.many(r, 'topic', pick([70, 257], [33, 65, 129, 256, 257, 700]), pick(8, 40)),
    lambda rep, r: values.chains(r, 'topic', pick(80, 800), 40)])
value_check('C18', values.qos_driver, 'QosTrace', ['services'], [
    lambda rep, r: values.services(rep, r),
    lambda rep, r: values.chains(r, 'svc', pick(20, 200), 60)])
value_check('C19', values.qos_driver, 'QosTrace', ['hash'], [
    _model('TypeHash', 'TypeHash.cfg'),
    lambda rep, r: values.hashes(r, pick(500, 8000)),
    lambda rep, r: values.hash_chains(r, pick(40, 400), 50)])
value_check('C20', values.util_driver, 'UtilTrace', ['time'], [
    lambda rep, r: values.apalache(rep, 'TimeClamp', 'Inv', 4),
    _model('Time', 'Time.cfg'),
    lambda rep, r: values.clamps(r, pick(6000, 80000)),
    lambda rep, r: values.clamp_chains(r, pick(60, 600), 80)])
value_check('C21', values.util_driver, 'UtilTrace', ['gid'], [
    _model('Gid', 'Gid.cfg'),
    lambda rep, r: values.gids(r, pick(5000, 60000)),
    lambda rep, r: values.gid_chains(r, pick(60, 600), 80)])
value_check('C29', flow.driver, 'FlowTrace', ['flow'], [
    lambda rep, r: flow.models(rep, vlib.TIER != 'quick'),
    lambda rep, r: flow.walks(rep, r, want=pick(6000, None)),
    lambda rep, r: flow.histories(r, pick(120, 1500), pick(60, 120)),
    lambda rep, r: flow.revolve(r, pick(60, 600), pick(40, 80)),
    lambda rep, r: flow.histories(r, pick(4, 16), 60, crowd=pick(70, 140)) + flow.histories(r, 1, 30, crowd=pick(265, 600))])
