"""Checks of the graph cache and of single-threaded context behaviour (C01-C08, C11, C26)."""
import random
import re

import vlib
from vlib import Conformance, Report, SEED, TIER

SRCS = ['graph_cache.cpp', 'context.cpp', 'gid_utils.cpp']


def driver(b):
    return b.exe('graph_driver', SRCS, ['graph_driver.cpp'])


# -------------------------------------------------------- printed graphs (C26)
def parse_gid(s):
    bs = s.split('.')
    try:
        return ''.join('%02x' % int(x, 16) for x in bs)
    except ValueError:
        return 'unreadable:' + s


def parse_dump(text):
    """Reads the printed form of a graph by its headings and quoted values, not by layout."""
    out = {'w': [], 'r': [], 'p': []}
    sec = None
    part = node = lst = None
    for line in text.split('\n'):
        low = line.strip().lower()
        if not low or set(low) <= {'-'} or low.startswith('graph cache'):
            continue
        if low.startswith('discovered') and 'writer' in low:
            sec = 'w'
            continue
        if low.startswith('discovered') and 'reader' in low:
            sec = 'r'
            continue
        if low.startswith('discovered') and 'participant' in low:
            sec = 'p'
            continue
        s = line.strip()
        if sec in ('w', 'r'):
            m = re.match(r"gid: '([^']*)', topic name: '(.*)', topic_type: '(.*)'$", s)
            if m:
                out[sec].append({'gid': parse_gid(m.group(1)), 'topic': m.group(2), 'type': m.group(3)})
            else:
                out[sec].append({'gid': 'line', 'topic': s, 'type': ''})
        elif sec == 'p':
            m = re.match(r"gid: '([^']*)'?$", s)
            if m:
                part = {'gid': parse_gid(m.group(1)), 'enclave': '(none)', 'nodes': []}
                out['p'].append(part)
                node = lst = None
                continue
            m = re.match(r"enclave name '(.*?)'?$", s)
            if m and part is not None:
                part['enclave'] = m.group(1)
                continue
            if low == 'nodes:':
                continue
            m = re.match(r"namespace: '(.*)' name: '(.*)'$", s)
            if m and part is not None:
                node = {'name': m.group(2), 'ns': m.group(1), 'r': [], 'w': []}
                part['nodes'].append(node)
                lst = None
                continue
            if low.startswith('associated') and node is not None:
                lst = node['r'] if 'reader' in low else node['w']
                continue
            if lst is not None:
                lst.append(parse_gid(s))
            else:
                out['p'].append({'gid': 'line', 'enclave': s, 'nodes': []})
        else:
            out['w'].append({'gid': 'line', 'topic': s, 'type': ''})
    return out


def post(events):
    out = []
    for e in events:
        if e.get('op') == 'obs' and 'dump' in e.get('o', {}):
            e = dict(e)
            e['o'] = dict(e['o'])
            e['o']['dump'] = parse_dump(e['o']['dump']['val'])
        out.append(e)
    return out


# ------------------------------------------------------------- concrete data
def esc(s):
    return ''.join('%%%02x' % b if (b < 0x21 or b in b'%,;|"\\' or b > 0x7e) else chr(b)
                   for b in s.encode())


def gid_family(rng, n):
    """n distinct ids chosen so that comparing only part of them, or comparing signed bytes or
    words, confuses some of them."""
    kind = rng.randrange(11)
    base = [rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]) for _ in range(16)]
    if rng.random() < .25:
        base = [0] * 16
    out = []
    pos = {0: 15, 1: 0, 2: 12, 3: 7, 4: 8, 5: 11}.get(kind)
    while len(out) < n:
        g = list(base)
        if pos is not None:
            g[pos] = rng.choice([0, 1, 2, 3, 0x41, 0x7f, 0x80, 0x81, 0xfe, 0xff, rng.randrange(256)])
        elif kind == 6:
            g[rng.randrange(16)] ^= 1 << rng.randrange(8)
        elif kind == 8:              # equal sums
            i, j = rng.randrange(16), rng.randrange(16)
            g[i], g[j] = g[j], g[i]
            if rng.random() < .5 and g[i] < 255 and g[j] > 0:
                g[i], g[j] = g[i] + 1, g[j] - 1
        elif kind == 9:              # equal exclusive or of the words
            k, w, v = rng.randrange(16), rng.choice([4, 8]), rng.randrange(1, 256)
            g[k] ^= v
            g[(k + w) % 16] ^= v
        elif kind == 10:             # the same words in another order
            w = rng.choice([4, 8])
            parts = [g[i:i + w] for i in range(0, 16, w)]
            rng.shuffle(parts)
            g = sum(parts, [])
        else:
            g = [rng.randrange(256) for _ in range(16)]
        h = bytes(g).hex()
        if h not in out:
            out.append(h)
        elif rng.random() < .3:
            pos = rng.randrange(16)
    return out


TOPICS = [['rt/chatter', 'rt/chatter2', 'rt/chatte', 'chatter'], ['rt/a', 'rq/aRequest', 'rr/aReply', 'a'],
          ['', 'rt', 'r', 'rtx'], ['rt/t b', 'rt/T', 'rt/t', 'rt/tt'],
          ['rt/\u00e9', 'rt/e', 'rt/%41', "rt/a'b"],
          ['rt/' + 'l' * 253, 'rt/' + 'l' * 252, 'rt/' + 'l' * 252 + 'm', 'rt/' + 'l' * 300]]
TYPES = ['std_msgs::msg::dds_::String_', 'std_msgs::msg::dds_::String', 'a', 'ab', '', 'rtX', 'Y', 'pkg::msg::dds_::' + 'L' * 260]
NAMES = [['n1', 'n2', 'n', 'N1'], ['', 'a', 'aa', 'ab'], ['node', 'node_', 'nod', 'Node'],
         ['talker', 'listener', 'talker2', 'talkerlistener'],
         ['n' * 255, 'n' * 254, 'n' * 254 + 'm', 'n' * 128]]
NSS = [['/', '/ns', '/ns/', '/n'], ['', '/', '/a', 'a'], ['/ns', '/ns/sub', '/', '/nss'],
       ['/' + 's' * 250, '/' + 's' * 249, '/' + 's' * 200 + '/t', '/']]
# names and namespaces that run together
RUNON = [(['ab', 'b', 'bc', 'c'], ['/', '/a', '/ab', '/a/']), (['n', 's/n', 'ss', 'n/s'], ['/', '/s', '', '/s/ss']),
         (['a', 'a/', 'a/b', 'a/b/'], ['/b', 'b', '/', '']), (['x', '/x', '', '/'], ['/', '/x', '', 'x'])]
ENCL = [['', '/', '/enc', '/enc/sub'], ['/a', '/b', '', '/ab'], ['/' + 'e' * 255, '/' + 'e' * 254, '', '/e']]


def rnd_hash(rng):
    return '%d:%s' % (rng.choice([0, 1, 1, 2, 255]), bytes(rng.randrange(256) for _ in range(32)).hex())


def rnd_qos(rng):
    d = lambda: rng.choice([0, 1, 9223372036, 18446744073709551615, rng.randrange(10**6)])
    return ','.join(map(str, [rng.randrange(4), d(), rng.randrange(5), rng.randrange(5), d(), d(), d(), d(),
                              rng.randrange(6), d(), d(), rng.randrange(2)]))


class Names:
    """Concrete values for the abstract ones of the model (or for a random history)."""

    def __init__(self, rng, gids=('g1', 'g2', 'sg'), parts=('p1', 'p2'), names=('n1', 'n2'), nss=('/',),
                 topics=('t1', 't2'), encl=('', 'e')):
        fam = gid_family(rng, len(gids) + len(parts)) if rng.random() < .7 else \
            gid_family(rng, len(gids)) + ['%s' % bytes(rng.randrange(256) for _ in range(16)).hex() for _ in parts]
        self.rng = rng
        # endpoint ids and participant ids are separate key spaces: let them collide at times
        pg = fam[len(gids):]
        if rng.random() < .25:
            pg = fam[:len(parts)] if len(parts) <= len(gids) else pg
        self.g = dict(zip(gids, fam))
        self.p = dict(zip(parts, pg))
        nn, ss = rng.choice(RUNON) if rng.random() < .3 else (rng.choice(NAMES), rng.choice(NSS))
        self.n = dict(zip(names, rng.sample(nn, len(names))))
        self.s = dict(zip(nss, rng.sample(ss, len(nss))))
        self.t = dict(zip(topics, rng.sample(rng.choice(TOPICS), len(topics))))
        self.e = dict(zip(encl, rng.sample(rng.choice(ENCL), len(encl))))

    def add(self, c, side, g, t, p):
        r = self.rng
        return '\t'.join(['add', str(c), side, r.choice(['direct', 'nohash', 'entity', 'entity_nohash']), g, esc(t),
                          esc(r.choice(TYPES)), rnd_hash(r), p, rnd_qos(r)])

    def obs(self, c, parts, topics=None, nodes=None):
        r = self.rng
        topics = list(self.t.values()) + ['rt/none'] if topics is None else topics
        if nodes is None:
            nodes = [(n, s) for n in list(self.n.values()) for s in list(self.s.values())] + [('nobody', '/')]
        dem = ['id', 'ros', 'first', 'const', 'hide', 'bang']
        return '\t'.join(['obs', str(c), ','.join(esc(t) for t in topics), r.choice(dem), r.choice(dem),
                          '|'.join(esc(n) + ';' + esc(s) for n, s in nodes), parts])

    def msg(self, m):
        out = [self.p[m['gid']]]
        for n in m['nodes']:
            out.append(';'.join([esc(self.n[n['name']]), esc(self.s[n['ns']]),
                                 ','.join(self.g[g] for g in n['r']), ','.join(self.g[g] for g in n['w'])]))
        return '|'.join(out)

    def line(self, a, c=1):
        op = a['op']
        r = self.rng
        if op == 'add':
            return self.add(c, a['side'], self.g[a['gid']], self.t[a['topic']], self.p[a['part']])
        if op == 'rm':
            return '\t'.join(['rm', str(c), a['side'], r.choice(['direct', 'entity']), self.g[a['gid']]])
        if op == 'addp':
            return '\t'.join(['addp', str(c), self.p[a['part']], esc(self.e[a['enclave']])])
        if op == 'rmp':
            return '\t'.join(['rmp', str(c), self.p[a['part']]])
        if op == 'upd':
            return '\t'.join(['upd', str(c), self.msg(a['msg'])])
        if op in ('addn', 'rmn'):
            return '\t'.join([op, str(c), self.p[a['part']], esc(self.n[a['name']]), esc(self.s[a['ns']])])
        return '\t'.join([op, str(c), self.g[a['gid']], self.p[a['part']], esc(self.n[a['name']]), esc(self.s[a['ns']])])


# ------------------------------------------- replay of the model's transitions
SLICES = ['endpoints', 'nodes1', 'nodes2', 'parts', 'attrib']


def slice_cfg(name, emit):
    with open(vlib.SPEC + '/GC_%s.cfg' % name) as f:
        return f.read().replace('EMITON', 'TRUE' if emit else 'FALSE')


def model_walks(rep, name, rng, parts, want=None, extra=None, relay=False, prelude=False):
    """Every transition (or `want` of them) of one model slice, as a script."""
    edges, r = vlib.state_graph('MCGraphCache', slice_cfg(name, True))
    rep.model('GraphCache/' + name, r)
    init = r.init
    script = []
    for w in vlib.cover_walks(edges, init, rng, want=want):
        nm = Names(rng)
        script.append('reset\t2\t%s\t%s' % (nm.p['p1'], nm.p['p2']))
        if extra == 'cb':
            script.append('setcb\t1\t%d' % rng.randrange(1, 100))
        if prelude:   # every id is discovered on both sides, so that queries by node show it
            for g in nm.g.values():
                for side in 'rw':
                    for ctx in (1, 2) if relay else (1,):
                        script.append('\t'.join(['add', str(ctx), side, 'direct', g, 'rt/' + g, 'T' + g, '1:' + '00' * 32,
                                                 nm.p['p1'], '0']))
        for i, first in w:
            a = edges[i][1]
            script.append(nm.line(a))
            if relay and a['op'] in ('addn', 'rmn', 'asw', 'dsw', 'asr', 'dsr'):
                script.append('relay\t2')
                if first:
                    script.append(nm.obs(2, 'nb'))
            if first and parts:
                script.append(nm.obs(1, parts))
            if extra == 'cb' and rng.random() < .04:
                script.append(rng.choice(['setcb\t1\t%d' % rng.randrange(1, 100), 'clearcb\t1']))
    rep.extra.setdefault('model_transitions_replayed', 0)
    rep.extra['model_transitions_replayed'] += len(edges) if want is None else min(want, len(edges))
    return script


# ------------------------------------------------------------ random histories
class History:
    """A random history; keeps only what is needed to make defined calls."""

    def __init__(self, rng, nctx=1, gids=12, parts=4, names=3, nss=2, topics=3):
        self.rng = rng
        gk = ['g%d' % i for i in range(gids)]
        pk = ['p%d' % i for i in range(parts)]
        self.nm = Names(rng, gk, pk, ['n%d' % i for i in range(names)], ['s%d' % i for i in range(nss)],
                        ['t%d' % i for i in range(topics)], ['e0', 'e1', 'e2'])
        self.G = list(self.nm.g.values())
        self.P = list(self.nm.p.values())
        self.N = list(self.nm.n.values())
        self.S = list(self.nm.s.values())
        self.T = list(self.nm.t.values())
        self.E = list(self.nm.e.values())
        self.nctx = nctx
        self.me = self.P[:nctx]
        self.told = {}
        self.nodes = [dict() for _ in range(nctx)]   # participant -> list of (name, ns)
        self.out = ['reset\t%d\t%s' % (nctx, '\t'.join(self.me))]

    def c(self):
        return self.rng.randrange(self.nctx)

    def node(self):
        r = self.rng
        return (r.choice(self.N), r.choice(self.S), [r.choice(self.G) for _ in range(r.choice([0, 0, 1, 2, 4]))],
                [r.choice(self.G) for _ in range(r.choice([0, 0, 1, 2, 4]))])

    def alter(self, nodes):
        r = self.rng
        what = r.choice(['gid', 'gid', 'swap', 'move', 'sides', 'name', 'ns', 'append', 'append', 'order', 'drop', 'twice', 'more'])
        if what == 'append' or not nodes:
            nodes.append(self.node())
            return
        i = r.randrange(len(nodes))
        n, s, a, b = nodes[i]
        x = r.choice([a, b])
        if what == 'gid' and x:
            x[r.randrange(len(x))] = r.choice(self.G)
        elif what == 'swap':
            r.shuffle(x)
        elif what == 'move':
            m = nodes[r.randrange(len(nodes))]
            if x:
                m[2 if x is a else 3].append(x.pop())
        elif what == 'sides':
            nodes[i] = (n, s, b, a)
        elif what == 'name':
            nodes[i] = (r.choice(self.N), s, a, b)
        elif what == 'ns':
            nodes[i] = (n, r.choice(self.S), a, b)
        elif what == 'order':
            r.shuffle(nodes)
        elif what == 'drop':
            nodes.pop(i)
        elif what == 'twice' and len(nodes) < 6:
            nodes.append((n, s, list(a), list(b)))
        elif what == 'more':
            x.append(r.choice(self.G))

    def message(self, p, maxn=4):
        r = self.rng
        nodes = []
        if p in self.told and r.random() < .5:      # nearly what was said before
            nodes = [(n, s, list(a), list(b)) for n, s, a, b in self.told[p]]
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                self.alter(nodes)
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3, maxn])):
                nodes.append(self.node())
        self.told[p] = nodes
        txt = '|'.join([p] + [';'.join([esc(n), esc(s), ','.join(a), ','.join(b)]) for n, s, a, b in nodes])
        return txt, [(n, s) for n, s, _, _ in nodes]

    def step(self, kinds):
        r = self.rng
        k = r.choice(kinds)
        c = self.c()
        nd = self.nodes[c]
        o = self.out
        if k == 'add':
            o.append(self.nm.add(c + 1, r.choice('rw'), r.choice(self.G), r.choice(self.T), r.choice(self.P)))
        elif k == 'rm':
            o.append('\t'.join(['rm', str(c + 1), r.choice('rw'), r.choice(['direct', 'entity']), r.choice(self.G)]))
        elif k == 'addp':
            p = r.choice(self.P)
            o.append('\t'.join(['addp', str(c + 1), p, esc(r.choice(self.E))]))
            nd.setdefault(p, [])
        elif k == 'rmp':
            p = r.choice(self.P)
            o.append('\t'.join(['rmp', str(c + 1), p]))
            nd.pop(p, None)
        elif k == 'upd':
            p = r.choice(self.P)
            t, l = self.message(p)
            o.append('\t'.join(['upd', str(c + 1), t]))
            nd[p] = l
        elif k == 'addn':
            if not nd:
                return self.step(['addp'])
            p = r.choice(list(nd))
            n, s = r.choice(self.N), r.choice(self.S)
            o.append('\t'.join(['addn', str(c + 1), p, esc(n), esc(s)]))
            nd[p].append((n, s))
        elif k in ('rmn', 'asw', 'asr', 'dsw', 'dsr'):
            ps = [p for p in nd if nd[p]]
            if not ps:
                return self.step(['addn'])
            p = r.choice(ps)
            n, s = r.choice(nd[p])
            if k == 'rmn':
                o.append('\t'.join([k, str(c + 1), p, esc(n), esc(s)]))
                nd[p].remove((n, s))
            else:
                o.append('\t'.join([k, str(c + 1), r.choice(self.G), p, esc(n), esc(s)]))
        elif k == 'ctx':
            me = self.me[c]
            if me not in nd:
                o.append('\t'.join(['addp', str(c + 1), me, esc(r.choice(self.E))]))
                nd[me] = []
            what = r.choice(['add_node', 'rm_node', 'add_pub', 'rm_pub', 'add_sub', 'rm_sub', 'add_cli', 'rm_cli',
                             'add_srv', 'rm_srv'])
            mode = r.choice(self.modes)
            if what == 'add_node' or not nd[me]:
                what = 'add_node'
                n, s = r.choice(self.N), r.choice(self.S)
                if mode == 'ok':
                    nd[me].append((n, s))
            else:
                n, s = r.choice(nd[me])
                if what == 'rm_node':
                    nd[me].remove((n, s))
            o.append('\t'.join(['ctx', str(c + 1), what, mode, esc(n), esc(s), r.choice(self.G[:6]), r.choice(self.G[:6])]))
        elif k == 'cb':
            o.append(r.choice(['setcb\t%d\t%d' % (c + 1, r.randrange(1, 1000)), 'clearcb\t%d' % (c + 1)]))
    modes = ['ok']

    def obs(self, parts, c=None):
        r = self.rng
        for i in (range(self.nctx) if c is None else [c]):
            self.out.append(self.nm.obs(i + 1, parts))


def histories(rng, n, length, kinds, obs, every=1, nctx=1, modes=('ok',), relay=False, cb=False, discover=False,
              **sizes):
    script = []
    for _ in range(n):
        sz = dict(sizes)
        if rng.random() < .4:
            sz.setdefault('gids', rng.choice([3, 5]))
            sz.setdefault('parts', max(nctx, 2))
            sz.setdefault('names', 2)
        h = History(rng, nctx=nctx, **sz)
        h.modes = list(modes)
        if cb:
            h.out.append('setcb\t1\t%d' % rng.randrange(1, 1000))
        if discover:
            for g in h.G:
                for side in 'rw':
                    for ctx in range(nctx):
                        h.out.append('\t'.join(['add', str(ctx + 1), side, 'direct', g, 'rt/' + g, 'T' + g,
                                                '1:' + '00' * 32, rng.choice(h.P), '0']))
        for k in range(length):
            before = len(h.out)
            h.step(kinds)
            if relay and len(h.out) > before and h.out[-1].split('\t')[0] in (
                    'addn', 'rmn', 'asw', 'dsw', 'asr', 'dsr') and nctx > 1:
                last = h.out[-1].split('\t')
                c = int(last[1])
                to = c % nctx + 1
                p = last[2] if last[0] in ('addn', 'rmn') else last[3]
                h.out.append('relay\t%d' % to)
                h.nodes[to - 1][p] = list(h.nodes[c - 1][p])
            if obs and (k % every == 0 or k == length - 1):
                h.obs(obs)
        script += h.out
    return script


QUESTIONS = {'c': ['cntw', 'cntr'], 'n': ['names', 'names2', 'num'], 'i': ['infow', 'infor'], 't': ['nt'],
             'b': ['ntw', 'ntr'], 'd': []}


def sticky(rng, n, length, kinds, parts, ask=True):
    """Small graphs that are asked one and the same question again and again while they change: an answer that was
    remembered has to be forgotten in time.  parts: kinds of questions; ask: also single queries ('query' in Focus)."""
    script = []
    for _ in range(n):
        h = History(rng, gids=rng.choice([2, 3, 4]), parts=2, names=2, nss=1, topics=2)
        t, node = rng.choice(h.T), (rng.choice(h.N), h.S[0])
        d = [rng.choice(['id', 'ros', 'const', 'id']) for _ in range(2)]
        qs = []
        for part in parts:
            qs.append('\t'.join(['obs', '1', esc(t), d[0], d[1], esc(node[0]) + ';' + esc(node[1]), part]))
            for k in QUESTIONS[part] if ask else ():
                a = {'cnt': [esc(t)], 'inf': [esc(t), d[1]], 'ntw': d + [esc(node[0]), esc(node[1])],
                     'ntr': d + [esc(node[0]), esc(node[1])]}.get(k[:3], d if k == 'nt' else [])
                qs.append('\t'.join(['q', '1', k] + a))
        qs = rng.sample(qs, rng.choice([1, 1, 2]) if len(qs) > 1 else 1)
        gap = rng.choice([[1], [1, 2], [2, 2, 1, 3]])
        while len(h.out) < length:
            for _ in range(rng.choice(gap)):
                h.step(kinds)
            h.out.append(qs[0] if len(qs) == 1 or rng.random() < .7 else qs[1])
        script += h.out
    return script


def lockstep(rng, n, length, nctx=3):
    """Every context sees as many changes of the same kinds, with contents of its own; then each is asked the
    same question, one directly after the other."""
    script = []
    for _ in range(n):
        h = History(rng, nctx=nctx, gids=2 * nctx, parts=nctx, names=2, nss=1, topics=2)
        free = [{s: list(h.G) for s in 'rw'} for _ in range(nctx)]
        for k in range(length):
            kind = rng.choice(['add', 'add', 'add', 'rm', 'addp', 'rmp', 'upd', 'addn', 'asw', 'asr', 'ctx'])
            side = rng.choice('rw')
            node = [(p, x) for p in h.me for x in h.nodes[h.me.index(p)].get(p, [])]
            for c in range(nctx):
                me, f = h.me[c], free[c][side]
                used = [g for g in h.G if g not in f]
                if kind == 'add' and f:
                    g = f.pop(rng.randrange(len(f)))
                    h.out.append(h.nm.add(c + 1, side, g, rng.choice(h.T), rng.choice(h.P)))
                elif kind == 'rm' and used:
                    g = rng.choice(used)
                    f.append(g)
                    h.out.append('\t'.join(['rm', str(c + 1), side, 'direct', g]))
                elif kind == 'addp':
                    h.out.append('\t'.join(['addp', str(c + 1), me, esc(rng.choice(h.E))]))
                    h.nodes[c].setdefault(me, [])
                elif kind == 'rmp' and rng.random() < .3:
                    h.out.append('\t'.join(['rmp', str(c + 1), me]))
                    h.nodes[c].pop(me, None)
                elif kind == 'upd':
                    p = rng.choice(h.P)
                    t, l = h.message(p, 2)
                    h.out.append('\t'.join(['upd', str(c + 1), t]))
                    h.nodes[c][p] = l
                elif kind in ('addn', 'ctx') and me in h.nodes[c]:
                    nn, ns = rng.choice(h.N), rng.choice(h.S)
                    h.out.append('\t'.join(['addn', str(c + 1), me, esc(nn), esc(ns)] if kind == 'addn' else
                                           ['ctx', str(c + 1), 'add_node', 'ok', esc(nn), esc(ns), h.G[0], h.G[1]]))
                    h.nodes[c][me].append((nn, ns))
                elif kind in ('asw', 'asr') and h.nodes[c].get(me):
                    nn, ns = rng.choice(h.nodes[c][me])
                    h.out.append('\t'.join([kind, str(c + 1), rng.choice(h.G), me, esc(nn), esc(ns)]))
            t, a, b = esc(rng.choice(h.T)), esc(rng.choice(h.N)), esc(h.S[0])
            if node and rng.random() < .7:
                a, b = (esc(x) for x in rng.choice(node)[1])
            d = [rng.choice(['id', 'ros', 'const']) for _ in range(2)]
            qs = [['names'], ['names2'], ['infow', t, d[1]], ['infor', t, d[1]], ['nt'] + d, ['ntw'] + d + [a, b],
                  ['ntr'] + d + [a, b], ['cntw', t], ['cntr', t], ['num']]
            for q in rng.sample(qs, rng.choice([1, 2])):
                order = rng.sample(range(nctx), nctx)
                for c in order + (order[:1] if rng.random() < .5 else []):
                    h.out.append('\t'.join(['q', str(c + 1)] + q))
        script += h.out
    return script


def crowds(rng, sizes, kinds_fill, parts):
    """Large graphs: many endpoints, nodes and participants, observed as they grow."""
    script = []
    for n in sizes:
        h = History(rng, gids=n, parts=max(2, n // 6), names=4, nss=3, topics=4)
        for k in range(3 * n):
            h.step(kinds_fill)
            if k % max(1, n // 3) == 0:
                h.obs(parts)
        h.obs(parts)
        script += h.out
    return script


def runons(rng, n, length, kinds, parts):
    """Participants with all nodes whose names and namespaces run together, edited and observed."""
    script = []
    for _ in range(n):
        nn, ss = rng.choice(RUNON)
        h = History(rng, gids=6, parts=2, names=4, nss=4, topics=3)
        h.nm.n, h.nm.s = dict(zip(h.nm.n, nn)), dict(zip(h.nm.s, ss))
        h.N, h.S = list(nn), list(ss)
        for g in h.G:
            for side in 'rw':
                h.out.append('\t'.join(['add', '1', side, 'direct', g, 'rt/' + g, 'T' + g, '1:' + '00' * 32, h.P[0], '0']))
        h.out.append('\t'.join(['addp', '1', h.P[0], '']))
        all_ = [(a, b) for a in nn for b in ss]
        rng.shuffle(all_)
        h.nodes[0][h.P[0]] = all_
        for a, b in all_:
            h.out.append('\t'.join(['addn', '1', h.P[0], esc(a), esc(b)]))
        for _ in range(length):
            h.step(kinds)
            if rng.random() < .3:
                h.obs(parts)
        h.obs(parts)
        script += h.out
    return script


def masses(rng, what, sizes, parts):
    """One dimension of the graph made large: endpoints of a topic, types of a topic, topics, participants,
    nodes of a participant, ids of a node; grown and taken apart again, observed at a few points."""
    script = []
    for n in sizes:
        g = gid_family(rng, 8) if n <= 8 else []
        while len(g) < n + 2:
            x = bytes(rng.randrange(256) for _ in range(16)).hex()
            g.append(x)
        p0, p1 = g[n], g[n + 1]
        nm = Names(rng)
        o = ['reset\t1\t' + p0, 'addp\t1\t%s\t%s' % (p0, '/e'), 'addn\t1\t%s\tn\t/' % p0]

        def add(i, topic, typ, part=None, side=None):
            return '\t'.join(['add', '1', side or rng.choice('rw'), rng.choice(['direct', 'entity', 'nohash']), g[i], topic, typ,
                              rnd_hash(rng), part or p0, rnd_qos(rng)])

        def obs(topics, nodes=(('n', '/'),)):
            o.append('\t'.join(['obs', '1', ','.join(topics), 'id', 'id', '|'.join(a + ';' + b for a, b in nodes), parts]))
        up, down, topics, nodes = [], [], ['rt/t', 'rt/t1'], [('n', '/'), ('n1', '/')]
        side = rng.choice('rw')
        for i in range(n):
            if what == 'endpoints':
                up.append([add(i, 'rt/t', 'T', rng.choice([p0, p0, p1]), side)])
                if rng.random() < .5:
                    up[-1].append('as%s\t1\t%s\t%s\tn\t/' % (side, g[i], p0))
                down.append(['rm\t1\t%s\tdirect\t%s' % (side, g[i])])
            elif what == 'types':
                up.append([add(i, 'rt/t', 'T%d' % i), 'asr\t1\t%s\t%s\tn\t/' % (g[i], p0), 'asw\t1\t%s\t%s\tn\t/' % (g[i], p0)])
                down.append(['rm\t1\t%s\tentity\t%s' % (x, g[i]) for x in 'rw'])
            elif what == 'topics':
                up.append([add(i, 'rt/t%d' % i, 'T'), 'asr\t1\t%s\t%s\tn\t/' % (g[i], p0), 'asw\t1\t%s\t%s\tn\t/' % (g[i], p0)])
                down.append(['rm\t1\t%s\tentity\t%s' % (x, g[i]) for x in 'rw'])
            elif what == 'participants':
                up.append(['addp\t1\t%s\t/e%d' % (g[i], i), 'addn\t1\t%s\tn%d\t/' % (g[i], i % 7)])
                down.append(['rmp\t1\t' + g[i]])
            elif what == 'nodes':
                up.append(['addn\t1\t%s\tn%d\t/' % (p0, i)])
                down.append(['rmn\t1\t%s\tn%d\t/' % (p0, i)])
            elif what == 'ids':
                up.append([add(i, 'rt/t%d' % (i % 5), 'T%d' % (i % 3), side=side), 'as%s\t1\t%s\t%s\tn\t/' % (side, g[i], p0)])
                down.append(['ds%s\t1\t%s\t%s\tn\t/' % (side, g[i], p0)])
            elif what == 'repeats':   # one id many times in one node
                up.append([add(0, 'rt/t', 'T', side=side)] * (i == 0) + ['as%s\t1\t%s\t%s\tn\t/' % (side, g[0], p0)])
                down.append(['ds%s\t1\t%s\t%s\tn\t/' % (side, g[0], p0)])
        if what != 'repeats':
            rng.shuffle(down)
        look = {n // 2, n - 1}
        for i, x in enumerate(up):
            o += x
            if i in look:
                obs(topics, nodes)
        # a snapshot of all of it, received by another cache
        for i, x in enumerate(down[:rng.choice([n, n // 2])]):
            o += x
            if i in (n // 2, n - 1):
                obs(topics, nodes)
        obs(topics, nodes)
        script += o
    return script


def masses_of(rng, whats, sizes, parts, cb=False):
    out = [x for w in whats for x in masses(rng, w, sizes, parts)]
    return called_back(out) if cb else out


def called_back(script):
    return [y for x in script for y in ([x, 'setcb\t1\t7'] if x.startswith('reset') else [x])]


def wraps(rng, kinds, parts, counts=(256, 65536), ctx=False):
    """A question, then so many changes that a small counter of changes has gone round exactly once, then the same
    question.  Counted are all changes, or those of one kind; the answer has changed in the meantime."""
    script = []
    for kind in kinds:
        for k, count in enumerate(counts):
            modes = ['both', 'do', 'undo']
            for mode in modes if k == 0 else [rng.choice(modes)]:
                g = gid_family(rng, 8) if rng.random() < .5 else [bytes(rng.randrange(256) for _ in range(16)).hex()
                                                                  for _ in range(8)]
                rng.shuffle(g)
                p0, p1, q = g[0], g[1], g[2]
                x, y, z, w = g[3:7]
                nm = Names(rng)
                t = 'rt/t'
                do, undo = {
                    'w': (lambda i: nm.add(1, 'w', i, t, p0), lambda i: 'rm\t1\tw\tdirect\t' + i),
                    'r': (lambda i: nm.add(1, 'r', i, t, p0), lambda i: 'rm\t1\tr\tentity\t' + i),
                    'part': (lambda i: 'addp\t1\t%s\t/%s' % (q, i), lambda i: 'rmp\t1\t' + (q if i in 'xyz' else p1)),
                    'reg': (lambda i: 'addp\t1\t%s\t/%s' % (p1, {'x': 'w', 'y': 'z'}.get(i, i)), None),
                    'upd': (lambda i: 'upd\t1\t%s|%s;/;%s;%s' % (p1, 'mn'[i == 'x'], x, y) +
                            ('|n;/%s;;%s' % (i, z) if i != 'x' else ''), None),
                    'node': (lambda i: 'addn\t1\t%s\t%s\t/' % (p0, i), lambda i: 'rmn\t1\t%s\t%s\t/' % (p0, i)),
                    'asw': (lambda i: 'asw\t1\t%s\t%s\tn\t/' % (i, p0), lambda i: 'dsw\t1\t%s\t%s\tn\t/' % (i, p0)),
                    'asr': (lambda i: 'asr\t1\t%s\t%s\tn\t/' % (i, p0), lambda i: 'dsr\t1\t%s\t%s\tn\t/' % (i, p0)),
                    'ctx': (lambda i: 'ctx\t1\tadd_pub\tok\tn\t/\t%s\t00' % i, lambda i: 'ctx\t1\trm_pub\tok\tn\t/\t%s\t00' % i),
                }[kind]
                a = 'xyzw' if kind in ('part', 'reg', 'upd', 'node') else (x, y, z, w)
                o = ['reset\t1\t' + p0, 'addp\t1\t%s\t/e' % p0, 'addn\t1\t%s\tn\t/' % p0,
                     'upd\t1\t%s|n;/;%s;%s' % (p1, x, y), 'addp\t1\t%s\t/w' % p1]
                if kind in ('w', 'r'):
                    o += ['as%s\t1\t%s\t%s\tn\t/' % (kind, i, p0) for i in (x, y, z, w)] + [do(w)]
                else:
                    o += [nm.add(1, s, i, t + str(j), rng.choice([p0, p1]))
                          for s in 'wr' for j, i in enumerate((x, y, z, w))]
                    o += [do(a[3])] if kind in ('node', 'asw', 'asr', 'ctx') else []
                    t = rng.choice(['rt/t1', 'rt/t3'])
                ask = '\t'.join(['obs', '1', esc(t), 'id', 'id', 'n;/', rng.choice(parts)])
                o.append(ask)
                if undo is None:
                    n, last = count - 1, [do(a[1])]
                elif mode == 'both':
                    n, last = count // 2 - 1, [do(a[1]), do(a[2])]
                else:
                    n, last = count - 1, [do(a[1]) if mode == 'do' else undo(a[3])]
                o.append('churn\t1\t%d\t|\t' % n + '\t|\t'.join([do(a[0])] + ([undo(a[0])] if undo else [])))
                script += o + last + [ask]
    return script


MASSES = ['endpoints', 'types', 'topics', 'participants', 'nodes', 'ids', 'repeats']


ALL = ['add', 'add', 'rm', 'addp', 'rmp', 'upd', 'addn', 'rmn', 'asw', 'asw', 'asr', 'asr', 'dsw', 'dsr']
BUILD_UP = ALL + ['add', 'add', 'addp', 'addn', 'asw', 'asr', 'upd']


def probe_histories(rng, n, length):
    """The callback itself asks for the graph (see Probe in the driver)."""
    script = []
    for _ in range(n):
        h = History(rng, gids=4, parts=2, names=2, nss=1, topics=2)
        for k in range(length):
            if k % 10 == 0:
                h.out.append('setcb\t1\t%d\t%s' % (rng.randrange(1, 1000), esc(rng.choice(h.T))))
            h.step(ALL)
        script += h.out
    return script


def fault_histories(rng, n):
    script = []
    dem = ['id', 'id', 'ros', 'first', 'const', 'hide', 'bang']
    for i in range(n):
        h = History(rng, gids=rng.choice([3, 6, 9]), parts=rng.choice([1, 2, 3]), names=2, nss=2, topics=rng.choice([1, 2, 3]))
        for q in range(4):
            for k in range(rng.choice([0, 6, 12, 25])):
                h.step(BUILD_UP)
            d = [rng.choice(dem) for _ in range(2)]
            t = esc(rng.choice(h.T + ['rt/none']))
            nd = [(esc(a), esc(b)) for l in h.nodes[0].values() for a, b in l]
            a, b = rng.choice(nd) if nd and rng.random() < .9 else (esc(h.N[0]), esc(h.S[0]))
            qs = [['names'], ['names2'], ['infow', t, d[1]], ['infor', t, d[1]], ['nt'] + d, ['ntw'] + d + [a, b],
                  ['ntr'] + d + [a, b], ['cntw', t], ['cntr', t], ['num']]
            for x in (qs[:7] if q % 2 == 0 else rng.sample(qs[:7], 3)):
                h.out.append('\t'.join(['qf', '1'] + x))
            for x in qs:
                h.out.append('\t'.join(['q', '1'] + x))
            for w in ('count', 'names', 'nt', 'ntw', 'ntr'):
                h.out.append('badarg\t1\t' + w)
            h.out.append('\t'.join(['q', '1', 'names']))
        script += h.out
    return script


def big_faults(rng, sizes):
    """Answers with many rows, whole and disturbed: memory that grows in steps, or is shared, shows only there."""
    script = []
    for n in sizes:
        for what in MASSES[:5]:
            m = masses(rng, what, [n], '')
            h = [l for l in m if l.split('\t')[0] not in ('obs', 'rm', 'rmp', 'rmn')]
            qs = {'endpoints': ['infow\trt/t\tid', 'infor\trt/t\tconst'], 'types': ['nt\tid\tid', 'ntw\tid\tid\tn\t/'],
                  'topics': ['nt\tid\tconst', 'ntr\tid\tid\tn\t/'], 'participants': ['names', 'names2'],
                  'nodes': ['names', 'names2']}[what]
            script += h
            for q in qs:
                script += ['qf\t1\t' + q, 'q\t1\t' + q]
    return script


def shapes(rep, rng):
    """Every shape of answer the model explored, produced in the real code and disturbed in every way."""
    with open(vlib.SPEC + '/QueryFault.cfg') as f:
        cfg = f.read()
    if vlib.TIER == 'quick':
        cfg = cfg.replace('MaxTypes = 3', 'MaxTypes = 2')
    else:
        cfg = cfg.replace('MaxRows = 3', 'MaxRows = 5')
    found, r = vlib.emitted('QueryFault', cfg.replace('EMITON', 'TRUE'))
    rep.model('QueryFault', r)
    for m in ('leak', 'twice', 'ignore'):
        vlib.model_refuted('QueryFault', cfg.replace('EMITON', 'FALSE').replace('"none"', '"%s"' % m))
        rep.extra.setdefault('refuted_variants', []).append('QueryFault with Mistake = ' + m)
    script = []
    for case in found:
        kind, shape = case['kind'], case['shape']
        n = len(shape)
        gids = gid_family(rng, 40)
        p = [bytes(rng.randrange(256) for _ in range(16)).hex() for _ in range(2)]
        script.append('reset\t1\t' + p[0])

        def add(side, g, topic, typ):
            script.append('\t'.join(['add', '1', side, 'direct', g, topic, typ, '1:' + '00' * 32, rng.choice(p), ','.join('0' * 12)]))
        if kind in ('names', 'names2'):
            # the nodes belong to one participant or to two
            for q in p:
                script.append('\t'.join(['addp', '1', q, esc(rng.choice(['', '/e', '/enclave']))]))
            for k in range(n):
                script.append('\t'.join(['addn', '1', rng.choice(p), 'n%d' % rng.randrange(3), rng.choice(['/', '/ns'])]))
            script.append('qf\t1\t' + kind)
        elif kind == 'info':
            script.append('\t'.join(['addp', '1', p[0], '']))
            script.append('\t'.join(['addn', '1', p[0], 'n', '/']))
            for k in range(n):
                for side in 'rw':
                    add(side, gids[k], 'rt/t', 'T%d' % rng.randrange(2))
                if rng.random() < .5:
                    script.append('\t'.join([rng.choice(['asw', 'asr']), '1', gids[k], p[0], 'n', '/']))
            add(rng.choice('rw'), gids[-1], 'rt/other', 'T')
            for q in ('infow', 'infor'):
                script.append('\t'.join(['qf', '1', q, 'rt/t', rng.choice(['id', 'hide', 'bang'])]))
        else:
            script.append('\t'.join(['addp', '1', p[0], '']))
            script.append('\t'.join(['addn', '1', p[0], 'n', '/']))
            k = 0
            for i, types in enumerate(shape):
                for j in range(types):
                    for side in 'rw':
                        # by-node queries see one side only: give them both; the global query sees duplicates
                        add(side, gids[k], 'rt/t%d' % i, 'T%d' % j)
                        script.append('\t'.join(['as' + side, '1', gids[k], p[0], 'n', '/']))
                    k += 1
            for q in (['nt', 'id', 'id'], ['ntw', 'ros', 'id', 'n', '/'], ['ntr', 'id', 'bang', 'n', '/']):
                script.append('\t'.join(['qf', '1'] + q))
        script.append('\t'.join(['q', '1', 'names']))
        script.append('\t'.join(['q', '1', 'nt', 'id', 'id']))
    rep.extra['answer_shapes_replayed'] = len(found)
    return script


# ------------------------------------------------- several contexts (C12)
FAILS = ['fail', 'timeout', 'badalloc', 'nopub', 'nocb']


class Net:
    """Contexts exchanging announcements; writes the script and keeps what the middleware would know."""

    def __init__(self, rng, nm, gids, parts, nodes, topics):
        self.r, self.nm, self.g, self.me = rng, nm, gids, parts
        self.nodes, self.t = nodes, topics
        n = len(parts)
        self.n = n
        self.local = [[] for _ in range(n)]      # (name, ns) held locally
        self.sent = [0] * n
        self.got = [[0] * n for _ in range(n)]
        self.st = ['off'] * n
        self.gone = [set() for _ in range(n)]
        self.dirty = [False] * n
        self.out = ['reset\t%d\t%s' % (n, '\t'.join(parts))]

    def endpoints(self, c):
        for k, g in enumerate(self.g):
            for side in 'rw':
                self.out.append('\t'.join(['add', str(c + 1), side, 'direct', g, self.t[k % len(self.t)], 'T%d' % k,
                                           '1:' + '00' * 32, self.me[k % self.n], ','.join('0' * 12)]))

    def join(self, c):
        self.st[c] = 'on'
        self.out.append('addp\t%d\t%s\t%s' % (c + 1, self.me[c], esc('/enc%d' % c)))

    def discover(self, c, s):
        self.out.append('addp\t%d\t%s\t%s' % (c + 1, self.me[s], esc('/enc%d' % s)))

    def op(self, c, what, ok, n, s, gw=None, gr=None):
        self.out.append('\t'.join(['ctx', str(c + 1), what, 'ok' if ok else self.r.choice(FAILS), esc(n), esc(s),
                                   gw or self.g[0], gr or self.g[-1]]))
        if what == 'add_node' and ok:
            self.local[c].append((n, s))
        if what == 'rm_node':
            self.local[c].remove((n, s))
        if ok:
            self.sent[c] += 1
            self.dirty[c] = False
        elif what.startswith('rm_'):
            self.dirty[c] = True

    def deliver(self, c, s, k):
        self.out.append('deliver\t%d\t%d\t%d' % (c + 1, s + 1, k))
        self.got[c][s] = k or self.sent[s]

    def depart(self, c, s):
        self.out.append('rmp\t%d\t%s' % (c + 1, self.me[s]))
        if self.st[s] == 'left':
            self.gone[c].add(s)
        elif self.sent[s]:
            self.got[c][s] = min(self.got[c][s], self.sent[s] - 1)

    def look(self, c):
        self.out.append(self.nm.obs(c + 1, 'nbi', topics=self.t, nodes=self.nodes))

    def settle(self):
        """Everything still in flight arrives, in any order."""
        on = [c for c in range(self.n) if self.st[c] == 'on']
        for c in on:
            if self.dirty[c]:
                n, s = self.r.choice(self.nodes)
                self.op(c, 'add_node', True, n, s)
        todo = [(c, s) for c in on for s in range(self.n) if s != c and (
            self.st[s] == 'on' and self.got[c][s] < self.sent[s] or self.st[s] == 'left' and s not in self.gone[c])]
        self.r.shuffle(todo)
        for c, s in todo:
            if self.st[s] == 'on':
                self.deliver(c, s, 0)
            else:
                self.depart(c, s)
        self.out.append('quiescent\t1\t%s\t%s' % (','.join(str(c + 1) for c in on),
                                                  ','.join(self.me[s] for s in range(self.n) if self.st[s] == 'left')))
        for c in on:
            self.look(c)


def net_walks(rep, rng, want=None):
    with open(vlib.SPEC + '/Disc_pair.cfg') as f:
        cfg = f.read()
    edges, r = vlib.state_graph('Discovery', cfg.replace('EMITON', 'TRUE'))
    rep.model('Discovery/pair', r)
    idx = {'a': 0, 'b': 1}
    script = []
    for w in vlib.cover_walks(edges, r.init, rng, want=want):
        nm = Names(rng, ('g1', 'gr'), ('a', 'b'), ('n1',), ('/',), ('t1', 't2'))
        nd = [(nm.n['n1'], nm.s['/'])]
        net = Net(rng, nm, [nm.g['g1'], nm.g['gr']], [nm.p['a'], nm.p['b']], nd, ['rt/1', 'rt/2'])
        for c in (0, 1):
            net.endpoints(c)
        for i, first in w:
            a = edges[i][1]
            k = a['a']
            c = idx[a['x']]
            if k == 'join':
                net.join(c)
            elif k == 'leave':
                net.st[c] = 'left'
            elif k == 'op':
                e = a['e']
                net.op(c, e['what'], a['ok'], nm.n[e['name']], nm.s[e['ns']], nm.g[e['gw']], nm.g[e['gr']])
            elif k == 'disc':
                net.discover(c, idx[a['s']])
            elif k == 'del':
                net.deliver(c, idx[a['s']], a['k'])
            elif k == 'rmp':
                net.depart(c, idx[a['s']])
            if first and k != 'leave' and net.st[c] == 'on':
                net.look(c)
        net.settle()
        script += net.out
    rep.extra['network_transitions_replayed'] = len(edges) if want is None else min(want, len(edges))
    return script


def context_walks(rep, name, rng, want=None):
    """The transitions of CtxLocal: local operations, announced or not, heard by a second context."""
    with open(vlib.SPEC + '/CtxL_%s.cfg' % name) as f:
        cfg = f.read()
    edges, r = vlib.state_graph('MCCtxLocal', cfg.replace('EMITON', 'TRUE'))
    rep.model('CtxLocal/' + name, r)
    script = []
    for w in vlib.cover_walks(edges, r.init, rng, want=want):
        nm = Names(rng, ('g1', 'g2'), ('a', 'b'), ('n1', 'n2'), ('/',), ('t1', 't2'))
        nodes = [(n, nm.s['/']) for n in nm.n.values()]
        net = Net(rng, nm, list(nm.g.values()), [nm.p['a'], nm.p['b']], nodes, ['rt/1', 'rt/2'])
        for c in (0, 1):
            net.endpoints(c)
            net.join(c)
        for i, first in w:
            a = edges[i][1]
            e = a['e']
            net.op(0, e['what'], a['ok'], nm.n[e['name']], nm.s[e['ns']], nm.g[e['gw']], nm.g[e['gr']])
            if a['ok']:
                net.deliver(1, 0, 0)
            if first:
                net.look(0)
                if rng.random() < .2:
                    net.look(1)
        script += net.out
    rep.extra.setdefault('context_transitions_replayed', 0)
    rep.extra['context_transitions_replayed'] += len(edges) if want is None else min(want, len(edges))
    return script


def networks(rng, count, length):
    script = []
    for _ in range(count):
        n = rng.choice([2, 3, 3, 4])
        gk = ['g%d' % i for i in range(8)]
        pk = ['p%d' % i for i in range(n)]
        nm = Names(rng, gk, pk, ('n0', 'n1', 'n2'), ('s0', 's1'), ('t0', 't1', 't2'))
        nodes = [(a, b) for a in nm.n.values() for b in nm.s.values()]
        if rng.random() < .5:
            nodes = nodes[:2]
        net = Net(rng, nm, list(nm.g.values()), list(nm.p.values()), nodes, [esc(t) for t in nm.t.values()])
        net.t = list(nm.t.values())
        for c in range(n):
            h = [k for k in range(len(net.g)) for _ in 'rw']
            for k in sorted(set(h)):
                for side in 'rw':
                    if rng.random() < .8:
                        net.out.append(nm.add(c + 1, side, net.g[k], net.t[k % 3], net.me[k % n]))
        late = rng.randrange(n) if rng.random() < .6 else -1
        for c in range(n):
            if c != late:
                net.join(c)
        for k in range(length):
            on = [c for c in range(n) if net.st[c] == 'on']
            x = rng.random()
            c = rng.choice(on)
            others = [s for s in range(n) if s != c and net.st[s] != 'off' and s not in net.gone[c]]
            if late >= 0 and net.st[late] == 'off' and k > length // 2:
                net.join(late)
            elif x < .5:
                # (remove a node only now and then, so that there are nodes to work on)
                what = rng.choice(['add_pub', 'rm_pub', 'add_sub', 'rm_sub', 'add_cli', 'rm_cli', 'add_srv', 'rm_srv',
                                   'add_node', 'rm_node'])
                if not net.local[c]:
                    what = 'add_node'
                nd = rng.choice(nodes) if what == 'add_node' else rng.choice(net.local[c])
                net.op(c, what, rng.random() < .85, nd[0], nd[1], rng.choice(net.g), rng.choice(net.g))
            elif x < .58 and others:
                net.discover(c, rng.choice([s for s in others]))
            elif x < .88 and others:
                s = rng.choice(others)
                if net.got[c][s] < net.sent[s]:
                    net.deliver(c, s, rng.randint(net.got[c][s] + 1, net.sent[s]))
                    if rng.random() < .5:
                        net.look(c)
            elif x < .92 and others:
                net.depart(c, rng.choice(others))
                net.look(c)
            elif x < .94 and len(on) > 1 and k > length // 3:
                net.st[c] = 'left'
            elif x < .96:
                side, g = rng.choice('rw'), rng.choice(net.g)
                net.out.append(rng.choice([
                    '\t'.join(['rm', str(c + 1), side, 'direct', g]),
                    nm.add(c + 1, side, g, rng.choice(net.t), rng.choice(net.me))]))
            else:
                net.look(c)
            if rng.random() < .02:
                net.settle()
        net.settle()
        script += net.out
    return script


def big_networks(rng, sizes):
    """A participant that grows to many nodes and endpoints, heard by one that is there all the time and one that comes late."""
    script = []
    for n in sizes:
        gk = ['g%d' % i for i in range(n)]
        nm = Names(rng, gk, ('p0', 'p1', 'p2'), (), ('s0', 's1'), ('t0', 't1'))
        g = []
        while len(g) < n:
            g.append(bytes(rng.randrange(256) for _ in range(16)).hex())
        nodes = [('n%d' % (i - i % 3 // 2), nm.s['s%d' % (i % 2)]) for i in range(n)]      # some names twice
        net = Net(rng, nm, g, list(nm.p.values()), rng.sample(nodes, min(n, 4)) + [nodes[-1]], ['rt/a', 'rt/b'])
        for c in range(3):
            for k in rng.sample(range(n), n // 2):
                net.out.append(nm.add(c + 1, rng.choice('rw'), g[k], net.t[k % 2], net.me[0]))
        net.join(0)
        net.join(1)
        looks = {n // 3, n - 1}
        for i, nd in enumerate(nodes):
            net.op(0, 'add_node', rng.random() < .97, *nd)
            for _ in range(rng.choice([0, 1, 2])):
                if net.local[0]:
                    nd = rng.choice(net.local[0])
                    net.op(0, rng.choice(['add_pub', 'add_sub', 'add_cli', 'add_srv', 'rm_pub', 'rm_sub']), rng.random() < .95, nd[0], nd[1],
                           rng.choice(g), rng.choice(g))
            if rng.random() < .1:
                net.deliver(1, 0, 0) if net.got[1][0] < net.sent[0] else None
            if i in looks:
                if net.got[1][0] < net.sent[0]:
                    net.deliver(1, 0, 0)
                net.look(1)
        net.join(2)
        net.settle()
        for nd in rng.sample(net.local[0], n // 2):
            net.op(0, 'rm_node', rng.random() < .9, *nd)
            if rng.random() < .1 and net.got[2][0] < net.sent[0]:
                net.deliver(2, 0, 0)
        net.settle()
        script += net.out
    return script


# ------------------------------------- participants, nodes, endpoints (C28)
ATTACH = {'pub': ['add_pub'], 'sub': ['add_sub'], 'cli': ['add_cli', 'add_srv']}
DETACH = {'add_pub': 'rm_pub', 'add_sub': 'rm_sub', 'add_cli': 'rm_cli', 'add_srv': 'rm_srv'}


class Ent:
    def __init__(self, p, kind, w, r, topics):
        self.p, self.kind, self.w, self.r, self.life = p, kind, w, r, 'none'
        self.topic = topics                     # side -> topic
        self.node = self.how = None
        self.eps = [(s, g) for s, g in (('w', w), ('r', r)) if g]


class System:
    """Contexts, their nodes and endpoints, and what the middleware passes on; writes the script."""

    def __init__(self, rng, nm, parts, nodes):
        self.r, self.nm, self.me, self.nodes = rng, nm, parts, nodes
        self.n = n = len(parts)
        self.up = [[] for _ in range(n)]
        self.ents = []
        self.sent = [0] * n
        self.clean = [True] * n
        self.got = [[0] * n for _ in range(n)]
        self.left = set()
        self.known = [set() for _ in range(n)]
        self.disc = [dict() for _ in range(n)]
        self.out = ['reset\t%d\t%s' % (n, '\t'.join(parts))]
        self.topics = list(nm.t.values())

    def join(self, c):
        self.meet(c, c)

    def meet(self, c, s):
        self.known[c].add(s)
        self.out.append('addp\t%d\t%s\t%s' % (c + 1, self.me[s], esc('/enc%d' % s)))

    def ctx(self, c, what, ok, nd, gw=None, gr=None):
        self.out.append('\t'.join(['ctx', str(c + 1), what, 'ok' if ok else self.r.choice(FAILS), esc(nd[0]), esc(nd[1]),
                                   gw or '00' * 16, gr or '00' * 16]))
        if ok:
            self.sent[c] += 1
            self.clean[c] = True
        elif what.startswith('rm_'):
            self.clean[c] = False

    def node_up(self, c, nd, ok=True):
        self.ctx(c, 'add_node', ok, nd)
        if ok:
            self.up[c].append(nd)

    def node_down(self, c, nd, ok=True):
        self.ctx(c, 'rm_node', ok, nd)
        self.up[c].remove(nd)

    def attach(self, e, nd, ok=True):
        e.how = self.r.choice(ATTACH[e.kind])
        self.ctx(e.p, e.how, ok, nd, e.w or e.r, e.r)
        e.node, e.life = nd, 'on' if ok else 'gone'

    def detach(self, e, ok=True):
        self.ctx(e.p, DETACH[e.how], ok, e.node, e.w or e.r, e.r)
        e.life = 'down'

    def find(self, x, e, ep):
        self.out.append(self.nm.add(x + 1, ep[0], ep[1], e.topic[ep[0]], self.me[e.p]))
        self.disc[x].setdefault(ep, e)

    def lose(self, x, ep):
        self.out.append('\t'.join(['rm', str(x + 1), ep[0], self.r.choice(['direct', 'entity']), ep[1]]))
        self.disc[x].pop(ep, None)

    def deliver(self, x, s, k):
        self.out.append('deliver\t%d\t%d\t%d' % (x + 1, s + 1, k))
        self.got[x][s] = k
        self.known[x].add(s)

    def part(self, x, s):
        self.out.append('rmp\t%d\t%s' % (x + 1, self.me[s]))
        self.known[x].discard(s)
        if self.sent[s]:
            self.got[x][s] = min(self.got[x][s], self.sent[s] - 1)

    def leave(self, s):
        self.left.add(s)
        self.out.append('leave\t%d' % (s + 1))

    def look(self, x, parts='inbt'):
        self.out.append(self.nm.obs(x + 1, parts, nodes=self.nodes + [('nobody', '/')]))

    def on(self):
        return [c for c in range(self.n) if c not in self.left and c in self.known[c]]

    def alive(self, e):
        return e.life in ('up', 'on', 'down') and e.p not in self.left

    def catch_up(self, x):
        for s in range(self.n):
            if s != x and s not in self.left and self.got[x][s] < self.sent[s]:
                self.deliver(x, s, self.sent[s])

    def settle(self):
        """Everything still under way arrives, in any order."""
        for c in self.on():
            if not self.clean[c]:
                spare = [nd for nd in self.nodes if nd not in self.up[c]]
                if spare:
                    self.node_up(c, self.r.choice(spare))
                else:
                    e = self.fresh(c)
                    if e is None:
                        return                      # no ids left
                    self.ents.append(e)
                    self.attach(e, self.r.choice(self.up[c]))
        todo = []
        for x in self.on():
            for s in range(self.n):
                if s != x and s not in self.left and self.got[x][s] < self.sent[s]:
                    todo.append((self.deliver, x, s, self.sent[s]))
                if s in self.left and s in self.known[x]:
                    todo.append((self.part, x, s))
                if s not in self.left and s not in self.known[x] and s in self.known[s]:
                    todo.append((self.meet, x, s))
            for e in self.ents:
                for ep in e.eps:
                    if self.alive(e) and ep not in self.disc[x]:
                        todo.append((self.find, x, e, ep))
                    elif not self.alive(e) and ep in self.disc[x]:
                        todo.append((self.lose, x, ep))
        self.r.shuffle(todo)
        for f, *a in todo:
            f(*a)
            if self.r.random() < .05:
                self.look(a[0])
        for x in self.on():
            self.out.append('settled\t%d' % (x + 1))
            self.look(x)

    def fresh(self, p):
        """A new entity with ids never used before on the same side."""
        kind = self.r.choice(['pub', 'sub', 'cli'])
        w = self.pop('w') if kind != 'sub' else None
        r = self.pop('r') if kind != 'pub' else None
        if (kind != 'sub' and not w) or (kind != 'pub' and not r):
            return None
        return Ent(p, kind, w, r, {'w': self.r.choice(self.topics), 'r': self.r.choice(self.topics)})

    def pop(self, side):
        l = self.ids[side]
        return l.pop(self.r.randrange(len(l))) if l else None


def system_walks(rep, name, rng, want=None, ops=None):
    """The transitions of System, each followed by what the contexts answer."""
    with open(vlib.SPEC + '/Sys_%s.cfg' % name) as f:
        cfg = f.read()
    if ops:
        cfg = re.sub(r'MaxOps = \d+', 'MaxOps = %d' % ops, cfg)
    edges, r = vlib.state_graph('MCSystem', cfg.replace('EMITON', 'TRUE'))
    rep.model('System/%s' % name + (', %d operations' % ops if ops else ''), r)
    kinds = {('g1', ''): 'pub', ('', 'g1'): 'sub', ('', 'g2'): 'sub', ('g1', 'g2'): 'cli', ('g2', ''): 'pub'}
    script = []
    for w in vlib.cover_walks(edges, r.init, rng, want=want):
        nm = Names(rng, ('g1', 'g2'), ('a', 'b'), ('n1', 'n2'), ('/',), ('t1', 't2'))
        idx = {'a': 0, 'b': 1}
        sy = System(rng, nm, [nm.p['a'], nm.p['b']], [(nm.n[n], nm.s['/']) for n in ('n1', 'n2')])
        sy.ids = {'w': [], 'r': []}
        for c in (0, 1):
            sy.join(c)
        ents = {}

        def ent(p, gw, gr):
            if (p, gw, gr) not in ents:
                ents[p, gw, gr] = e = Ent(p, kinds[gw, gr], nm.g.get(gw), nm.g.get(gr),
                                          {'w': nm.t['t1'], 'r': nm.t['t1']})
                e.life = 'up'
                sy.ents.append(e)
            return ents[p, gw, gr]
        owner = {'one': [(0, 'g1', '')], 'two': [(0, 'g1', ''), (0, '', 'g2')], 'same': [(0, 'g1', ''), (0, '', 'g1')],
                 'client': [(0, 'g1', 'g2')], 'both': [(0, 'g1', ''), (1, 'g2', '')]}[name]
        for o in owner:
            ent(*o)
        byep = {ep: e for e in sy.ents for ep in e.eps}
        for i, first in w:
            a = edges[i][1]
            k = a['a']
            x = None
            if k == 'op':
                x = idx[a['s']]
                nd = (nm.n[a['n']], nm.s['/'])
                if a['what'] == 'add_node':
                    sy.node_up(x, nd, a['ok'])
                elif a['what'] == 'rm_node':
                    sy.node_down(x, nd, a['ok'])
                elif a['what'].startswith('add_'):
                    sy.attach(ent(x, a['w'], a['r']), nd, a['ok'])
                else:
                    sy.detach(ent(x, a['w'], a['r']), a['ok'])
            elif k == 'meet':
                x = idx[a['x']]
                sy.meet(x, idx[a['s']])
            elif k == 'part':
                x = idx[a['x']]
                sy.part(x, idx[a['s']])
            elif k == 'del':
                x = idx[a['x']]
                sy.deliver(x, idx[a['s']], a['k'])
            elif k == 'leave':
                sy.leave(idx[a['s']])
            elif k in ('find', 'lose'):
                x = idx[a['x']]
                ep = (a['ep'][0], nm.g[a['ep'][1]])
                if k == 'find':
                    sy.find(x, byep[ep], ep)
                else:
                    sy.lose(x, ep)
            if first and x is not None:
                sy.look(x)
        script += sy.out
    rep.extra.setdefault('system_transitions_replayed', 0)
    rep.extra['system_transitions_replayed'] += len(edges) if want is None else min(want, len(edges))
    return script


def systems(rng, count, length, size=1):
    """Random runs with many participants, nodes and endpoints."""
    script = []
    for _ in range(count):
        n = rng.choice([2, 3, 3, 4])
        gk = ['g%d' % i for i in range(24 * size)]
        nm = Names(rng, gk, ['p%d' % i for i in range(n)], ('n0', 'n1', 'n2'), ('s0', 's1'), ('t0', 't1', 't2'))
        nodes = [(a, b) for a in nm.n.values() for b in nm.s.values()]
        nodes = rng.sample(nodes, rng.randint(2, len(nodes)))
        sy = System(rng, nm, list(nm.p.values()), nodes)
        ids = list(nm.g.values())
        # writers and readers have separate ids: the same one may be used on both sides
        cut = rng.choice([len(ids), len(ids) // 2])
        sy.ids = {'w': ids[:cut], 'r': ids[-cut:]}
        foreign = bytes(rng.randrange(256) for _ in range(16)).hex()
        late = rng.randrange(n) if rng.random() < .6 else -1
        for c in range(n):
            if c != late:
                sy.join(c)
        for k in range(length):
            if late >= 0 and late not in sy.known[late] and k > length // 3:
                sy.join(late)
            on = sy.on()
            c = rng.choice(on)
            ok = rng.random() < .9
            x = rng.random()
            mine = [e for e in sy.ents if e.p == c]
            others = [s for s in range(n) if s != c and s in sy.known[s]]
            if x < .10 or not sy.up[c]:
                new = [nd for nd in nodes if nd not in sy.up[c]]
                if new:
                    sy.node_up(c, rng.choice(new), ok)
            elif x < .30:
                pool = [e for e in mine if e.life == 'up']
                e = rng.choice(pool) if pool and rng.random() < .6 else sy.fresh(c)
                if e:
                    if e.life == 'none':
                        e.life = 'up'
                        sy.ents.append(e)
                    if rng.random() < .7:
                        sy.attach(e, sy.up[c][0] if rng.random() < .5 else rng.choice(sy.up[c]), ok)
            elif x < .40:
                pool = [e for e in mine if e.life == 'on']
                if pool:
                    e = rng.choice(pool)
                    sy.detach(e, ok)
                    if rng.random() < .5:
                        e.life = 'gone'
            elif x < .44:
                idle = [nd for nd in sy.up[c] if not any(e.life == 'on' and e.node == nd for e in mine)]
                if idle:
                    sy.node_down(c, rng.choice(idle), ok)
            elif x < .46:
                for e in mine:
                    if e.life == 'down':
                        e.life = 'gone'
            elif x < .62 and others:
                s = rng.choice(others)
                if sy.got[c][s] < sy.sent[s] and (s not in sy.left or s in sy.known[c]):
                    sy.deliver(c, s, rng.choice([sy.got[c][s] + 1, sy.sent[s], sy.sent[s],
                                                 rng.randint(sy.got[c][s] + 1, sy.sent[s])]))
            elif x < .78:
                new = [(e, ep) for e in sy.ents for ep in e.eps if ep not in sy.disc[c] and sy.alive(e)]
                if new:
                    sy.find(c, *rng.choice(new))
                    if rng.random() < .3:
                        sy.catch_up(c)
                        sy.look(c)
            elif x < .84 and sy.disc[c]:
                ep = rng.choice(sorted(sy.disc[c]))
                if not sy.alive(sy.disc[c][ep]) or rng.random() < .3:
                    sy.lose(c, ep)
                elif rng.random() < .3:
                    sy.find(c, sy.disc[c][ep], ep)          # discovered once more
            elif x < .88 and others:
                s = rng.choice(others)
                if s not in sy.left:
                    sy.meet(c, s)
            elif x < .91 and others:
                s = rng.choice(others)
                sy.part(c, s)
            elif x < .92 and len(on) > 1 and k > length // 2:
                sy.leave(c)
            elif x < .93:
                # endpoints without a participant the contexts know
                g = bytes(rng.randrange(256) for _ in range(16)).hex()
                sy.out.append(nm.add(c + 1, rng.choice('rw'), g, rng.choice(sy.topics), foreign))
            elif x < .97:
                sy.look(c)
            if rng.random() < .03:
                sy.settle()
        sy.settle()
        script += sy.out
    return script
