"""Concurrent use of one context (C09, C10, C26)."""
import concurrent.futures as cf
import itertools
import json
import shutil
import subprocess
import tempfile

import graph
import vlib
from graph import esc
from vlib import CheckError, Violation

SRCS = ['graph_cache.cpp', 'context.cpp', 'gid_utils.cpp', 'qos.cpp', 'time_utils.cpp', 'security.cpp']


# library functions that access memory for the code under test (harness/conc_rt.cpp records what they access)
ACCESSORS = ('memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strnlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy',
             'strcat', 'strncat', 'strchr', 'strstr', 'vsnprintf', 'snprintf', 'rcutils_vsnprintf', 'rcutils_snprintf')


def driver(b):
    return b.exe('conc_driver', SRCS, ['conc_setcb.cpp', 'conc_driver.cpp', 'conc_rt.cpp'],
                 repo_flags=['-fsanitize=thread', '-U_FORTIFY_SOURCE', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], own_flags=['-fno-threadsafe-statics'], link=[],
                 instrumented=('conc_setcb.cpp',), redirect=ACCESSORS)


def post(h):
    for e in h:
        c = e.get('call')
        if isinstance(c, dict) and c.get('op') == 'q' and c['q'][0] == 'dump':
            c['res']['val'] = graph.parse_dump(c['res']['val'])
    return h


class Programs:
    """Runs concurrent programs in the real code under many schedules; LinTrace judges the histories."""

    def __init__(self, prop, exe, timeout=300):
        self.prop, self.exe, self.timeout = prop, exe, timeout
        self.traces = self.events = self.runs = self.programs = self.complete = self.steps = 0
        self.samples = []

    def explore(self, script):
        """All distinct histories of one script, in order."""
        if not any(l.startswith('pre\tput\t') for l in script):
            return self._explore(script, None)
        d = tempfile.mkdtemp(prefix='verif-scratch-')
        try:
            return self._explore(script, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _explore(self, script, scratch):
        try:
            p = subprocess.run([self.exe] + ([scratch] if scratch else []), input=('\n'.join(script) + '\n').encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=self.timeout, env=vlib.ENV)
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = e.stdout or b'', 'none within %d s' % self.timeout, b''
        if rc == 3:
            raise CheckError('driver refused the program: ' + err.decode(errors='replace')[-500:])
        hs, st = [], []
        for line in out.decode('utf-8', 'replace').split('\n'):
            try:
                if line.startswith('H'):
                    hs.append(post(json.loads(line[1:])))
                elif line.startswith('S'):
                    st.append(json.loads(line[1:]))
            except ValueError:
                if rc == 0:
                    raise CheckError('driver printed a malformed line')
        return hs, st, rc, err.decode(errors='replace')

    def judge(self, hs):
        """None, or (index of the history, index of its event, text) of the first one not explained."""
        flat = [e for h in hs for e in h]
        bad = vlib.check_trace('LinTrace', [], flat, consts='CONSTRAINT Mark')
        if not bad:
            return None
        k = bad[0]
        for i, h in enumerate(hs):
            if k < len(h):
                return i, k, bad[1]
            k -= len(h)
        return len(hs) - 1, len(hs[-1]) - 1, bad[1]

    def complain(self, script, h, k, what, err=''):
        e = h[k] if h and k < len(h) else None
        if e and e['op'] in ('deadlock', 'stuck'):
            what = 'a schedule ends in ' + ('a deadlock' if e['op'] == 'deadlock' else 'an endless loop')
        elif e and e['op'] == 'trouble':
            what = {'race': 'conflicting accesses to shared state without synchronisation',
                    'released': 'access to memory already released'}.get(e['what'], e['what'])
        elif e and h:
            what = 'no sequential order of the calls explains this history (stuck at event %d: %s)' % (
                k + 1, json.dumps(e)[:300])
        raise Violation(what, {'property': self.prop, 'module': 'LinTrace', 'driver': 'conc_driver', 'script': script,
                               'failing_command': '; '.join(' '.join(l.split('\t')) for l in script
                                                            if l.startswith('thr'))[:900],
                               'explanation': what, 'history': h, 'event': e, 'stderr': err[-3000:]})

    def once(self, script):
        """None or (history, event index, text) for a script of one program."""
        hs, st, rc, err = self.explore(script)
        if rc != 0:
            return ([], 0, 'the code under test crashed or hung: exit status %s: %s' % (rc, vlib.summary(err.encode())), err)
        b = self.judge(hs) if hs else None
        if b:
            return (hs[b[0]], b[1], b[2], err)
        return None

    def confirm(self, script):
        for attempt in range(2):
            b = self.once(script)
            if b:
                self.complain(script, *b)
        print('note: a rejection did not repeat on two re-runs; ignored')

    def run(self, programs):
        """programs: list of scripts, each one program."""
        n = vlib.NCPU
        bins = [programs[i::n * 2] for i in range(n * 2)]
        bins = [b for b in bins if b]

        def job(b):
            hs, st, rc, err = self.explore([l for s in b for l in s])
            if rc != 0 or any(s['end'] in ('deadlock', 'stuck') for s in st):
                return b, hs, st, 'crash'
            return b, hs, st, self.judge(hs) if hs else None
        suspicious = []
        with cf.ThreadPoolExecutor(n) as ex:
            for b, hs, st, bad in ex.map(job, bins):
                self.programs += len(b)
                self.traces += len(hs)
                self.events += sum(len(h) for h in hs)
                self.runs += sum(s['runs'] for s in st)
                self.steps += sum(s['steps'] for s in st)
                self.complete += sum(1 for s in st if s['end'] == 'complete')
                if hs and len(self.samples) < 2:
                    self.samples.append({'module': 'LinTrace', 'history': hs[len(hs) // 2][:14]})
                if bad:
                    suspicious.append(b)
        for b in suspicious:
            for s in b:
                x = self.once(s)
                if x:
                    self.confirm(s)
                    return

    def report(self, rep):
        rep.conf(self)
        for k in ('programs', 'runs', 'steps', 'complete'):
            rep.extra['concurrent_' + k] = rep.extra.get('concurrent_' + k, 0) + getattr(self, k)


class Independent(Programs):
    """Programs over several contexts and the stateless functions: what concerns one context has to be explained
    by it alone, and every call of a stateless function by its arguments alone."""
    STATELESS = {
        'QosTrace': (('compat', 'best', 'bestnull', 'topic', 'svc', 'enc', 'parse', 'parsenull', 'trip'),
                     ['verdict', 'reason', 'sub', 'pub', 'topic', 'services', 'hash'],
                     '  Unspecified <- DUnspecified\n  BestAvailable <- DBestAvailable\n  Infinite <- DInfinite\n'),
        'UtilTrace': (('clamp', 'gid'), ['time', 'gid'], ''),
        'SecurityTrace': (('put', 'look'), ['outcome', 'path', 'p11', 'repeat'], '')}

    def judge(self, hs):
        parts = {'LinTrace': {}}
        for m in self.STATELESS:
            parts[m] = {}
        for i, h in enumerate(hs):
            by = {}
            for k, e in enumerate(h):
                if e['op'] in ('trouble', 'deadlock', 'stuck', 'lost'):
                    return i, k, e['op']
                if e.get('c'):
                    by.setdefault(e['c'], []).append((k, e))
                elif 'call' in e:
                    for m, (ops, _f, _c) in self.STATELESS.items():
                        if e['call']['op'] in ops:
                            by.setdefault(m, []).append((k, e['call']))
                elif e['op'] == 'pub':
                    return i, k, 'announced with the publisher of another context'
            for w, evs in by.items():
                m = w if w in self.STATELESS else 'LinTrace'
                if m == 'SecurityTrace':
                    evs = [(evs[0][0], {'op': 'reset', 'n': 9})] + evs
                key = json.dumps([e for _, e in evs], sort_keys=True)
                parts[m].setdefault(key, (i, evs))
        for m, d in parts.items():
            flat = [(i, k, e) for i, evs in d.values() for k, e in evs]
            if not flat:
                continue
            _ops, focus, consts = self.STATELESS.get(m, (None, [], 'CONSTRAINT Mark'))
            self.parts[m] = self.parts.get(m, 0) + len(d)
            bad = vlib.check_trace(m, focus, [e for _, _, e in flat], consts=consts)
            if bad:
                i, k, e = flat[min(bad[0], len(flat) - 1)]
                return i, k, m + ': ' + bad[1]
        return None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.parts = {}

    def complain(self, script, h, k, what, err=''):
        e = h[k] if h and k < len(h) else None
        if e and 'call' in e and e.get('c') == 0:
            call = json.dumps(e['call'])
            raise Violation('a call did not answer what it answers alone: %s at %s' % (what, call[:200]),
                            {'property': self.prop, 'module': 'independent', 'driver': 'conc_driver', 'script': script,
                             'failing_command': '; '.join(' '.join(l.split('\t')) for l in script if l.startswith('thr'))[:900],
                             'explanation': what, 'history': h, 'event': e, 'stderr': err[-3000:]})
        super().complain(script, h, k, what, err)


# ------------------------------------------------------------------ programs
ZH = '1:' + '00' * 32
Q0 = ','.join('0' * 12)


class Gen:
    def __init__(self, rng):
        self.r = rng
        nm = graph.Names(rng, ('g1', 'g2', 'g3'), ('p1', 'p2'), ('n1', 'n2', 'n3'), ('s1',), ('t1', 't2'), ('e1', 'e2'))
        self.nm = nm
        self.g = list(nm.g.values())
        if nm.p['p1'] == nm.p['p2']:
            raise CheckError('participants coincide')
        self.p1, self.p2 = nm.p['p1'], nm.p['p2']
        self.n1, self.n2, self.n3 = [esc(x) for x in nm.n.values()]
        self.s = esc(nm.s['s1'])
        self.t = [esc(x) for x in nm.t.values()]
        self.cbid = 10

    def add(self, side, g, t=0, p=None):
        return '\t'.join(['add', '1', side, 'direct', self.g[g], self.t[t], 'T%d' % t, ZH, p or self.p1, Q0])

    def node(self, k, g, n=None):
        return '\t'.join([k, '1', self.g[g], self.p1, n or self.n1, self.s])

    def upd(self, p, v):
        nodes = [[], [(self.n1, [0], [1])], [(self.n2, [], [0]), (self.n1, [1], [0, 1])]][v]
        return 'upd\t1\t' + '|'.join([p] + [';'.join([n, self.s, ','.join(self.g[x] for x in a),
                                                     ','.join(self.g[x] for x in b)]) for n, a, b in nodes])

    def setcb(self):
        self.cbid += 1
        return 'setcb\t1\t%d' % self.cbid

    def updates(self):
        return {
            'addw': self.add('w', 0), 'addw2': self.add('w', 1, 1, self.p2), 'addr': self.add('r', 0),
            'rmw': 'rm\t1\tw\tdirect\t' + self.g[0], 'rmr': 'rm\t1\tr\tentity\t' + self.g[0],
            'addp2': 'addp\t1\t%s\t%s' % (self.p2, '/e1'), 'addp1': 'addp\t1\t%s\t%s' % (self.p1, '/e2'),
            'rmp2': 'rmp\t1\t' + self.p2, 'upd0': self.upd(self.p2, 0), 'upd1': self.upd(self.p2, 1),
            'upd2': self.upd(self.p2, 2),
            'addn': 'addn\t1\t%s\t%s\t%s' % (self.p1, self.n3, self.s),
            'rmn': 'rmn\t1\t%s\t%s\t%s' % (self.p1, self.n2, self.s),
            'asw': self.node('asw', 0), 'dsw': self.node('dsw', 0), 'asr': self.node('asr', 1), 'dsr': self.node('dsr', 1),
            'setcb': self.setcb(), 'clearcb': 'clearcb\t1'}

    def queries(self):
        t = self.t[0]
        return {
            'cntw': 'q\t1\tcntw\t' + t, 'cntr': 'q\t1\tcntr\t' + t, 'num': 'q\t1\tnum', 'names': 'q\t1\tnames',
            'infow': 'q\t1\tinfow\t%s\tid' % t, 'infor': 'q\t1\tinfor\t%s\tid' % t, 'nt': 'q\t1\tnt\tid\tid',
            'ntw': '\t'.join(['q', '1', 'ntw', 'id', 'id', self.n1, self.s]),
            'ntr': '\t'.join(['q', '1', 'ntr', 'id', 'id', self.n1, self.s]), 'dump': 'q\t1\tdump'}

    def pre(self, cb=None):
        r = self.r
        o = ['scn\t1', 'me\t' + self.p1, 'pre\taddp\t1\t%s\t%s' % (self.p1, '/e'),
             'pre\taddn\t1\t%s\t%s\t%s' % (self.p1, self.n1, self.s),
             'pre\taddn\t1\t%s\t%s\t%s' % (self.p1, self.n2, self.s)]
        opt = [self.add('w', 0), self.add('r', 0), self.add('r', 1), self.node('asw', 0), self.node('asr', 1),
               'addp\t1\t%s\t%s' % (self.p2, '/e1'), self.upd(self.p2, 1)]
        for x in opt:
            if r.random() < .5:
                o.append('pre\t' + x)
        if r.random() < .5 if cb is None else cb:
            o.append('pre\t' + self.setcb())
        return o

    def fin(self, dump=False):
        o = ['fin\tq\t1\tnames', 'fin\tq\t1\tinfow\t%s\tid' % self.t[0], 'fin\tq\t1\tinfor\t%s\tid' % self.t[0],
             'fin\tq\t1\tinfow\t%s\tid' % self.t[1],
             'fin\t' + '\t'.join(['q', '1', 'ntw', 'id', 'id', self.n1, self.s]),
             'fin\t' + '\t'.join(['q', '1', 'ntr', 'id', 'id', self.n1, self.s])]
        return o


def lay_out(threads):
    return ['thr\t%d\t%s' % (k + 1, x) for k, t in enumerate(threads) for x in t]


def callback_programs(rng, bound, pct, max_runs):
    """Every update next to the installation and the removal of the callback."""
    out = []
    for k in sorted(Gen(rng).updates()):
        if k in ('setcb', 'clearcb'):
            continue
        for other in (['clearcb'], ['setcb'], ['clearcb', 'setcb']):
            g = Gen(rng)
            u = g.updates()
            s = g.pre(cb=True) + lay_out([[u[k]], [g.setcb() if x == 'setcb' else u[x] for x in other]])
            s.append('run\tdfs\t%d\t%d' % (bound, max_runs))
            s.append('run\tpct\t2\t%d\t%d' % (pct, rng.randrange(1 << 30)))
            out.append(s)
    return out


def cache_programs(rng, bound, pct, extra, max_runs):
    """Every pair of operations meets, together with a third one; and longer random programs."""
    out = []
    ks = sorted(list(Gen(rng).updates()) + list(Gen(rng).queries()))
    pairs = [p for p in itertools.combinations_with_replacement(ks, 2)]
    rng.shuffle(pairs)

    def emit(shape):
        g = Gen(rng)
        u = g.updates()
        q = g.queries()
        m = dict(u)
        m.update(q)
        removed = False
        threads = []
        for t in shape:
            ops = []
            for k in t:
                if k == 'rmn':      # the only node of that name can be removed once
                    if removed:
                        k = 'addn'
                    removed = True
                ops.append(g.setcb() if k == 'setcb' else m[k])
            threads.append(ops)
        s = g.pre() + lay_out(threads) + g.fin()
        s.append('run\tdfs\t%d\t%d' % (bound, max_runs))
        if pct:
            s.append('run\tpct\t%d\t%d\t%d' % (rng.choice([1, 2, 3]), pct, rng.randrange(1 << 30)))
        out.append(s)
    us = sorted(Gen(rng).updates())
    for a, b in pairs:
        c = rng.choice(us)
        emit(rng.choice([[[a], [b, c]], [[a, c], [b]], [[c, a], [b]], [[a], [b], [c]]]))
    qs = sorted(Gen(rng).queries())
    for _ in range(extra):
        n = rng.choice([2, 3, 3])
        emit([[rng.choice(qs if rng.random() < .35 else us) for _ in range(rng.choice([1, 2, 2]) if n == 3 else
                                                                            rng.choice([2, 3]))] for _ in range(n)])
    return out


def torn_programs(rng, share, again, max_runs):
    """A query next to two updates of different things it looks at: it must see both, the first alone or none."""
    er, ew, p1, p2 = ['addr', 'rmr'], ['addw', 'addw2', 'rmw'], ['addn', 'rmn', 'asw', 'dsw', 'asr', 'dsr', 'addp1'], \
        ['addp2', 'rmp2', 'upd0', 'upd1', 'upd2']
    looks = {'nt': [er, ew], 'infow': [ew, p1, p2], 'infor': [er, p1, p2], 'ntw': [ew, p1, p2], 'ntr': [er, p1, p2],
             'names': [p1, p2], 'num': [p1, p2], 'dump': [er, ew, p1, p2]}
    out = []
    for q in sorted(looks):
        pairs = [(a, b) for x, y in itertools.permutations(looks[q], 2) for a in x for b in y]
        n = max(12, int(len(pairs) * share))
        for a, b in [x for _ in range(again) for x in rng.sample(pairs, min(n, len(pairs)))]:
            g = Gen(rng)
            u = g.updates()
            s = g.pre(cb=rng.random() < .1) + lay_out([[g.queries()[q]], [u[a], u[b]]]) + ['fin\t' + g.queries()[q]]
            s.append('run\tdfs\t1\t%d' % max_runs)
            out.append(s)
    return out


def context_programs(rng, bound, pct, extra, max_runs, modes=('ok', 'ok', 'ok', 'ok', 'fail', 'timeout'), share=1.0):
    out = []
    whats = ['add_node', 'rm_node', 'add_pub', 'rm_pub', 'add_sub', 'rm_sub', 'add_cli', 'rm_cli', 'add_srv', 'rm_srv']
    other = ['addw', 'addr', 'rmw', 'addp2', 'rmp2', 'upd1', 'upd2', 'addp1']

    def emit(shape):
        g = Gen(rng)
        u = g.updates()
        removed = False
        threads = []
        for t in shape:
            ops = []
            for k in t:
                if k in u:
                    ops.append(u[k])
                    continue
                n, mode = g.n1, rng.choice(modes)
                if k == 'rm_node':
                    if removed:
                        k = 'add_node'
                    removed = True
                    n = g.n2
                if k == 'add_node':
                    n = rng.choice([g.n3, g.n3, g.n1])
                a, b = rng.choice([(0, 1), (1, 0), (0, 0), (2, 1)])
                ops.append('\t'.join(['ctx', '1', k, mode, n, g.s, g.g[a], g.g[b]]))
            threads.append(ops)
        s = g.pre(cb=rng.random() < .2) + lay_out(threads) + g.fin()
        s.append('run\tdfs\t%d\t%d' % (bound, max_runs))
        if pct:
            s.append('run\tpct\t%d\t%d\t%d' % (rng.choice([1, 2, 3]), pct, rng.randrange(1 << 30)))
        out.append(s)
    pairs = list(itertools.combinations_with_replacement(whats, 2)) + [(a, b) for a in whats for b in other]
    rng.shuffle(pairs)
    for a, b in pairs[:int(len(pairs) * share)]:
        emit([[a], [b]])
    for _ in range(extra):
        n = rng.choice([2, 3])
        emit([[rng.choice(whats if rng.random() < .8 else other) for _ in range(rng.choice([1, 2]) if n == 2 else 1)]
              for _ in range(n)])
    return out


def dump_programs(rng, count, bound, max_runs):
    out = []
    for _ in range(count):
        g = Gen(rng)
        u = g.updates()
        for k in ('setcb', 'clearcb'):
            del u[k]
        us = [k for k in sorted(u) if k != 'rmn']
        first = rng.choice(us + ['rmn'])
        s = g.pre(cb=False) + lay_out([['q\t1\tdump'], [u[first], u[rng.choice(us)]]]) + ['fin\tq\t1\tdump']
        s.append('run\tdfs\t%d\t%d' % (bound, max_runs))
        s.append('run\tpct\t2\t20\t%d' % rng.randrange(1 << 30))
        out.append(s)
    return out


def retarget(line, c, swap=None):
    """The same command for another context, with two participants exchanged."""
    t = line.split('\t')
    i = 1 if t[0] in ('pre', 'fin') else 0
    t[i + 1] = str(c)
    line = '\t'.join(t)
    if swap:
        a, b = swap
        line = b.join(x.replace(b, a) for x in line.split(a))
    return line


def independent_programs(rng, bound, pct, extra, max_runs, pools):
    """Threads that share nothing but the library: each with a context of its own, or calling stateless functions."""
    out = []
    whats = ['add_node', 'rm_node', 'add_pub', 'rm_pub', 'add_sub', 'rm_sub', 'add_cli', 'rm_cli', 'add_srv', 'rm_srv']

    spare = ('addw', 'addr', 'rmw', 'addp2', 'upd2')

    def emit(shape, files=()):
        g = Gen(rng)
        pre = g.pre()
        swap = [None, rng.choice([None, (g.p1, g.p2)]), None, None]
        s = [pre[0], 'me\t%s\t%s\t%s' % (g.p1, g.p2 if swap[1] else g.p1, g.p1)] + list(files)
        for c in range(1, len(shape) + 1):
            # (contexts differ in what they know)
            s += [retarget(l, c, swap[c - 1]) for l in pre[2:]
                  if not l.startswith('pre\tsetcb') and not (l.startswith('pre\tadd\t') and rng.random() < .3)]
            asks = shape[c - 1][0] in ('nt', 'ntw', 'ntr', 'infow', 'infor')
            s += ['pre\t' + retarget(g.add(x, 2, rng.choice([0, 1]), g.p2), c, swap[c - 1]) for x in 'wr'
                  if rng.random() < (.8 if asks else .4)]
            if rng.random() < .6:
                # the notified party may look at the next context
                look = ''
                if c < len(shape) and rng.random() < .6:
                    q = g.queries()
                    look = '\t' + retarget(q[rng.choice(sorted(q))], c + 1, swap[c])
                s.append('pre\tsetcb\t%d\t%d%s' % (c, 100 * c, look))
            for occasion in ('onpub', 'onask'):
                # so may who publishes or demangles; it may also change it
                if c < len(shape) and rng.random() < (.9 if asks else .5):
                    looks, x = g.queries(), g.queries()
                    if occasion == 'onpub' or rng.random() < .3:
                        u = g.updates()
                        x.update((k, u[k]) for k in spare)
                        # (two may not change the own participant at once, other than by the context's operations)
                        if all(k in whats or k in pools or k in looks or k in spare for k in shape[c]):
                            x.update((k, '\t'.join(['ctx', '1', k, rng.choice(['ok', 'ok', 'fail']), g.n1, g.s, g.g[0], g.g[1]]))
                                     for k in ('add_pub', 'rm_sub', 'add_cli', 'rm_srv', 'add_sub', 'add_srv'))
                    k = rng.choice(sorted(x))
                    if occasion == 'onask' and asks and rng.random() < .7:
                        k = shape[c - 1][0]  # the same question again
                    s.append('pre\t%s\t%d\t%s%s' % (occasion, c, '%d\t' % rng.choice([1, 1, 2]) if occasion == 'onask' else '',
                                                    retarget(x[k], c + 1, swap[c])))
        threads = []
        for c, kinds in enumerate(shape, 1):
            u, q = g.updates(), g.queries()
            ops, gone = [], False
            for k in kinds:
                if k in pools:
                    ops.append(rng.choice(pools[k]))
                    continue
                if k in ('rmn', 'rm_node'):
                    if gone:
                        k = 'addn' if k == 'rmn' else 'add_node'
                    gone = True
                if k in whats:
                    n = g.n2 if k == 'rm_node' else g.n3 if k == 'add_node' else g.n1
                    a, b = rng.choice([(0, 1), (1, 0), (2, 1)])
                    x = '\t'.join(['ctx', str(c), k, rng.choice(['ok', 'ok', 'fail']), n, g.s, g.g[a], g.g[b]])
                elif k == 'setcb':
                    x = 'setcb\t%d\t%d' % (c, 100 * c + 1)
                else:
                    x = retarget(u.get(k) or q[k], c)
                ops.append(retarget(x, c, swap[c - 1]))
            threads.append(ops)
        s += lay_out(threads)
        for c in range(1, len(shape) + 1):
            s += [retarget(l, c, swap[c - 1]) for l in g.fin()]
        s.append('run\tdfs\t%d\t%d' % (bound, max_runs))
        s.append('run\tpct\t%d\t%d\t%d' % (rng.choice([1, 2, 3]), pct, rng.randrange(1 << 30)))
        out.append(s)
    kinds = sorted(list(Gen(rng).updates()) + list(Gen(rng).queries())) + whats
    for k in kinds + ['nt', 'ntw', 'ntr', 'infow', 'infor'] * 3:
        emit([[k, rng.choice(kinds)], [k, rng.choice(kinds)]])
    free = sorted(k for k in pools if k[0] != '+')
    for k in free:
        emit([[k, k], [k, k]], pools.get('+' + k, ()))
        other = rng.choice([x for x in free if '+' + x not in pools])
        emit([[k, k, k], [other, k]], pools.get('+' + k, ()))
    both = [l for k in pools if k[0] == '+' for l in pools[k]]
    for _ in range(extra):
        ks = rng.choice([kinds, free, kinds + free])
        emit([[rng.choice(ks) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 2, 3]))],
             both if ks is not kinds else ())
    return out
