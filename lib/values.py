"""Checks of the stateless operations: QoS (C13-C18), type hashes (C19), durations (C20), ids (C21)."""
import json
import os
import subprocess
import tempfile

import vlib

REL = {'system_default': 0, 'reliable': 1, 'best_effort': 2, 'unknown': 3, 'best_available': 4}
DUR = {'system_default': 0, 'transient_local': 1, 'volatile': 2, 'unknown': 3, 'best_available': 4}
LIV = {'system_default': 0, 'automatic': 1, 'manual_by_node': 2, 'manual_by_topic': 3, 'unknown': 4, 'best_available': 5}
BA, INF, NONE = (9223372036, 854775806), (9223372036, 854775807), (0, 0)
U64 = 2 ** 64 - 1
G = 10 ** 9


def qos_driver(b):
    return b.exe('qos_driver', ['qos.cpp'], ['qos_driver.cpp'])


def util_driver(b):
    return b.exe('util_driver', ['time_utils.cpp', 'gid_utils.cpp'], ['util_driver.cpp'])


def chunk(cmds, n=40):
    out = []
    for i in range(0, len(cmds), n):
        out.append('reset')
        out += cmds[i:i + n]
    return out


# ------------------------------------------------------------------ models
def qos_cfg(name, emit, sizes=None, endpoints=None):
    t = open(os.path.join(vlib.SPEC, 'Qos_%s.cfg' % name)).read()
    t = t.replace('EMITON', 'TRUE' if emit else 'FALSE').replace('LIVE', '' if vlib.TIER == 'quick' or emit else 'PROPERTY Terminates')
    if sizes is not None:
        t = vlib.re.sub(r'Sizes = .*', 'Sizes = {%s}' % ', '.join(map(str, sizes)), t)
    if endpoints is not None:
        t = vlib.re.sub(r'MaxEndpoints = .*', 'MaxEndpoints = %d' % endpoints, t)
    return t


def cases(rep, name, **kw):
    """Explore the QoS model exhaustively; return the cases it decided, once each."""
    out, r = vlib.emitted('MCQos', qos_cfg(name, True, **kw), workers=vlib.NCPU, heap='8g')
    rep.model('Qos_' + name, r)
    return out


# the abstract durations of the model: the same order as the real ones
def durations(rng):
    short = (0, rng.randint(1, G - 1))
    if rng.random() < .3:
        short = rng.choice([(0, 1), (0, G - 1), (1, 0)])
    long = rng.choice([(rng.randint(2, 10 ** 6), rng.randint(0, G - 1)), (2, 0), (2 ** 31, 1), (2 ** 32, 5), (2 ** 32 + 1, 0),
                       (9223372036, 0), (9223372035, G - 1)])
    over = rng.choice([(9223372036, 854775808), (9223372037, 0), (U64, G - 1), (2 ** 63, 0)])
    return {(0, 0): NONE, (0, 1): short, (1, 0): long, (9, 6): BA, (9, 7): INF, (9, 8): over}


def profile(rng, m, d):
    """One concrete profile for an abstract one; what the model leaves out is arbitrary."""
    dl, ll = d[tuple(m['dl'])], d[tuple(m['ll'])]
    life = rng.choice([NONE, BA, INF, (rng.randint(0, 9), rng.randint(0, U64)), (U64, U64)])
    depth = rng.choice([0, 1, 10, 2 ** 32, U64])
    return ','.join(map(str, (rng.randint(0, 3), depth, REL[m['rel']], DUR[m['dur']], *dl, *life, LIV[m['liv']], *ll,
                              rng.randint(0, 1))))


def anyprofile(rng, ba=.0):
    def pol(t):
        return 'best_available' if rng.random() < ba else rng.choice(sorted(t))
    d = {k: v for k, v in enumerate([NONE, NONE, BA, INF, (0, 1), (0, G - 1), (1, 0), (rng.randint(0, 3), rng.randint(0, G - 1)),
                                     (rng.randint(0, U64), rng.randint(0, G - 1)), (1, 5), (2, 1), (2 ** 32, 1)])}

    def du():
        return ('BA',) if rng.random() < ba else (rng.randrange(len(d)),)
    m = {'rel': pol(REL), 'dur': pol(DUR), 'liv': pol(LIV), 'dl': du(), 'll': du()}
    return profile(rng, m, {**{(k,): v for k, v in d.items()}, ('BA',): BA})


# --------------------------------------------------------------- C13 and C14
def compat_model(rep, rng, sizes):
    out = []
    for name, cs in (('compat', cases(rep, 'compat', sizes=[0, 60] if vlib.TIER == 'quick' else None)),
                     ('durations', cases(rep, 'durations', sizes=[0, 61] if vlib.TIER == 'quick' else None))):
        for c in cs:
            d = durations(rng)
            out.append('compat\t%s\t%s\t%s' % (profile(rng, c['p'], d), profile(rng, c['s'], d), sizes(rng)))
    rng.shuffle(out)
    return chunk(out)


def compat_random(rng, n, sizes):
    out = []
    for _ in range(n):
        p, s = anyprofile(rng), anyprofile(rng)
        if rng.random() < .25:      # nearly equal durations
            a, b = p.split(','), s.split(',')
            i = rng.choice([(4, 5), (9, 10)])
            for k in i:
                b[k] = a[k]
            k = rng.choice(i)
            v = int(b[k]) + rng.choice([-1, 0, 1])
            b[k] = str(min(max(v, 0), G - 1 if k == i[1] else U64))
            s = ','.join(b)
        out.append('compat\t%s\t%s\t%s' % (p, s, sizes(rng)))
    return chunk(out)


def every_size(rng):
    """Every buffer size around all cut points of the longest texts."""
    out = []
    worst = [('best_effort', 'reliable'), ('system_default', 'unknown'), ('unknown', 'unknown'), ('system_default', 'system_default')]
    for k in range(8):
        r, q = rng.choice(worst), rng.choice(worst)
        v = [('automatic', 'manual_by_topic'), ('unknown', 'system_default'), ('automatic', 'unknown'), ('unknown', 'manual_by_topic')]
        u = [('volatile', 'transient_local'), ('unknown', 'unknown'), ('volatile', 'system_default')]
        w, x = rng.choice(v), rng.choice(u)
        if k % 2:
            r, w, x = worst[1 + k % 3], v[1 + k % 3], u[1 + k % 2]
        dl = ((0, 1) if k % 4 < 2 else (0, 0), (0, 1))
        d = {(0, 0): NONE, (0, 1): (5, 5), (0, 2): (1, 1)}
        if k % 2:
            dl = ((0, 0), (0, 0))
        p = profile(rng, {'rel': r[0], 'dur': x[0], 'liv': w[0], 'dl': dl[0], 'll': dl[0]}, d)
        s = profile(rng, {'rel': r[1], 'dur': x[1], 'liv': w[1], 'dl': (0, 2) if k % 2 == 0 else (0, 0), 'll': (0, 2) if k % 2 == 0 else (0, 0)}, d)
        n = list(range(0, 420))
        for i in range(0, len(n), 20):
            out.append('compat\t%s\t%s\t%s' % (p, s, ','.join(map(str, n[i:i + 20]))))
    return chunk(out)


# ---------------------------------------------------------- C15, C16 and C17
def best_model(rep, rng, side, want=None):
    cs = [c for c in cases(rep, 'topic', endpoints=2) if c['side'] == side and c['qret'] == 'OK']
    if want is not None and len(cs) > want:
        cs = rng.sample(cs, want)
    out = []
    for c in cs:
        d = durations(rng)
        out.append('\t'.join(['best', side, profile(rng, c['s'], d)] + [profile(rng, e, d) for e in c['eps']]))
    return chunk(out)


def best_random(rng, side, n, maxlen):
    out = []
    for _ in range(n):
        eps = [anyprofile(rng, rng.choice([0, 0, .1])) for _ in range(rng.randint(0, maxlen))]
        mode = rng.random()
        if eps and mode < .5:        # nearly unanimous endpoints: only a few differ, and anywhere
            base = rng.choice(eps).split(',')
            base[2], base[3], base[8] = '1', '1', '3'
            eps = [','.join(base)] * len(eps)
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.randrange(len(eps))
                e = eps[i].split(',')
                k = rng.choice([2, 3, 8, 4, 5, 9, 10])
                e[k] = str(rng.choice([0, 1, 2, 3, 4]) if k not in (5, 10) else rng.randint(0, G - 1))
                eps[i] = ','.join(e)
        q = anyprofile(rng, rng.choice([.5, .9, 1]))
        orders = [eps]
        if len(eps) > 1:             # the same endpoints in other orders
            orders.append(eps[::-1])
            orders.append(rng.sample(eps, len(eps)))
        for o in orders:
            out.append('\t'.join(['best', side, q] + o))
    for which in ('list', 'profile', 'both'):
        for q in (anyprofile(rng, 1), anyprofile(rng, 0)):
            out.append('\t'.join(['bestnull', side, which, q]))
    return chunk(out)


def many(rng, kind, sizes, n):
    """Large sets of endpoints, all alike but for one or two of them, anywhere."""
    out = []
    for size in sizes:
        for _ in range(n):
            base = anyprofile(rng, 0).split(',')
            base[2], base[3], base[8] = rng.choice('112'), rng.choice('112'), rng.choice('331')
            eps = [','.join(base)] * size
            for i in rng.sample(sorted({0, size - 1, size - 2, rng.randrange(size), rng.randrange(size)}), rng.choice([0, 1, 1, 2])):
                e = list(base)
                k = rng.choice([2, 3, 8, 4, 9])
                if k in (4, 9):
                    e[k:k + 2] = anyprofile(rng, 0).split(',')[k:k + 2]
                else:
                    e[k] = {2: '2' if e[2] == '1' else '1', 3: '2' if e[3] == '1' else '1', 8: '1' if e[8] == '3' else '3'}[k]
                eps[i] = ','.join(e)
            q = anyprofile(rng, rng.choice([.9, 1]))
            if kind == 'topic':
                out.append('\t'.join(['topic', rng.choice(['sub', 'pub']), q, 'OK', '/chatter', '-'] + eps))
            else:
                out.append('\t'.join(['best', kind, q] + eps))
    return chunk(out, 10)


RETS = ['OK', 'OK', 'OK', 'ERROR', 'INVALID', 'BAD_ALLOC', 'TIMEOUT', 'UNSUPPORTED', 'NO_NODE']


def topic_model(rep, rng, want=None):
    cs = cases(rep, 'topic', endpoints=2 if vlib.TIER == 'quick' else None)
    if want is not None and len(cs) > want:
        cs = rng.sample(cs, want)
    out = []
    for c in cs:
        d = durations(rng)
        ret = 'OK' if c['qret'] == 'OK' else rng.choice(RETS[3:])
        name = rng.choice(['/chatter', '', 'rt/x', '/%C3%A9', 'x' * 300])
        out.append('\t'.join(['topic', c['side'], profile(rng, c['s'], d), ret, name, '-'] +
                             [profile(rng, e, d) for e in c['eps']]))
    return chunk(out)


def topic_random(rng, n):
    out = []
    for i in range(n):
        q = anyprofile(rng, rng.choice([0, 0, .2, 1]))
        if rng.random() < .4:        # exactly one policy is best-available, or none
            f = anyprofile(rng, 0).split(',')
            for k in (2, 3):
                f[k] = '1'
            f[8] = '1'
            f[4:6], f[9:11] = ['1', '0'], ['1', '0']
            k = rng.choice([2, 3, 8, 4, 9, None, 'near'])
            if k in (2, 3):
                f[k] = '4'
            elif k == 8:
                f[k] = '5'
            elif k in (4, 9):
                f[k:k + 2] = [str(x) for x in BA]
            elif k == 'near':        # almost the best-available duration
                f[4:6] = [str(x) for x in rng.choice([INF, (BA[0], BA[1] - 1), (BA[0] - 1, BA[1]), (BA[0], 0)])]
                f[6:8] = [str(x) for x in BA]    # the lifespan does not count
            q = ','.join(f)
        null = rng.choice(['-'] * 8 + ['n', 't', 'q', 'nt', 'ntq'])
        eps = [anyprofile(rng) for _ in range(rng.randint(0, 6))]
        out.append('\t'.join(['topic', rng.choice(['sub', 'pub']), q, rng.choice(RETS), rng.choice(['/chatter', '/a/b', '']), null] + eps))
    return chunk(out)


# -------------------------------------------------- near-identical calls in a row
def nudge(rng, q, ba):
    """The same profile but for one field."""
    f, g = q.split(','), anyprofile(rng, ba).split(',')
    k = rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 6, 8, 8, 9, 9, 11])
    for i in ((k, k + 1) if k in (4, 6, 9) else (k,)):
        f[i] = g[i]
    if k in (4, 9) and rng.random() < .3:       # only one of the two parts
        f[k + 1] = q.split(',')[k + 1]
    return ','.join(f)


def chains(rng, kind, n, length):
    """Calls that differ from the one before in one field only, if at all; arguments in reused memory in half of them."""
    out = []
    for i in range(n):
        out.append('reset\treuse' if i % 2 else 'reset')
        ba = 0 if kind in ('compat', 'reason') else rng.choice([.5, 1])
        q, p = anyprofile(rng, ba), anyprofile(rng, 0)
        if rng.random() < .5:                    # start from a pair without incompatibilities
            q = ','.join(['1', '10', '4' if ba else '2', '4' if ba else '2', *map(str, BA if ba else NONE), '0', '0',
                          '5' if ba else '1', *map(str, BA if ba else NONE), '0'])
            p = ','.join(['1', '10', '1', '1', '1', '0', '0', '0', '3', '1', '0', '0'])
        eps = [anyprofile(rng, 0) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
        if rng.random() < .5:
            eps = [p] * len(eps)
        ret, name = 'OK', '/chatter'
        last, size = None, 0
        for _ in range(length):
            new = (q, p, list(eps), ret, name)
            w = rng.random()
            if w < .12:
                pass
            elif w < .22 and last:
                new = last
            elif kind in ('compat', 'reason'):
                new = (nudge(rng, q, 0), p, eps, ret, name) if rng.random() < .5 else (q, nudge(rng, p, 0), eps, ret, name)
            elif kind == 'svc' or w < .4:
                new = (nudge(rng, q, .6), p, eps, ret, name)
            elif kind == 'topic' and w < .6:
                new = (q, p, eps, rng.choice(RETS), rng.choice(['/chatter', '/chatter', '/a']))
            else:
                e, v = list(eps), rng.random()
                k = rng.randrange(len(e)) if e else 0
                if e and v < .7:
                    e[k] = nudge(rng, e[k], 0)
                elif v < .85 and e:
                    e[k], e[-1] = e[-1], e[k]
                elif v < .93:
                    e.insert(k, anyprofile(rng, 0))
                elif e:
                    e.pop(k)
                new = (q, p, e, ret, name)
            last, (q, p, eps, ret, name) = (q, p, eps, ret, name), new
            if kind == 'compat':
                out.append('compat\t%s\t%s\t%s' % (p, q, rng.choice(['400', '0', 'nil', '400,7'])))
            elif kind == 'reason':
                if rng.random() < .5 or not size:
                    size = rng.choice([rng.randint(1, 90), rng.randint(60, 420), 900])
                out.append('compat\t%s\t%s\t%s' % (p, q, rng.choice(['%d', '%d', '%d,900', '900,%d', '%d,nil', 'nil,%d', '%d,%d']).replace('%d', str(size))))
            elif kind == 'svc':
                out.append('svc\t' + q)
            elif kind == 'topic':
                out.append('\t'.join(['topic', rng.choice(['sub', 'pub']) if rng.random() < .2 else ('sub', 'pub')[i % 4 // 2],
                                      q, ret, name, '-'] + eps))
            else:
                out.append('\t'.join(['best', kind, q] + eps))
    return out


def hash_chains(rng, n, length):
    out = []
    for i in range(n):
        out.append('reset\treuse' if i % 2 else 'reset')
        h = bytearray(rhash(rng))
        before, after, cut = b'', b'', 0
        last = None
        for _ in range(length):
            w, new = rng.random(), (bytes(h), before, after, 0)
            if w < .1:
                pass
            elif w < .2 and last:
                new = last
            elif w < .7:
                x = bytearray(h)
                x[rng.randrange(32)] = rng.randrange(256)
                new = (bytes(x), before, after, 0)
            elif w < .8:
                new = (bytes(h), before, after, rng.choice([1, 2, 3]))
            else:
                e = entry(rng) if rng.random() < .6 else b''
                new = (bytes(h), e, after, 0) if rng.random() < .5 else (bytes(h), before, e, 0)
            last, (x, before, after, cut) = (bytes(h), before, after, cut), new
            h = bytearray(x)
            text = b'typehash=RIHS01_' + x.hex().encode() + b';'
            if cut == 1:        # as long, but no hash
                text = b'typehasx' + text[8:]
            elif cut == 2:
                text = text[:20] + b'x' + text[21:]
            elif cut == 3:
                text = b''
            v = rng.random()
            if v < .6 or cut:
                out.append('parse\t' + (before + text + after).hex())
            elif v < .8:
                out.append('trip\t1:%s\t%s\t%s' % (x.hex(), before.hex(), after.hex()))
            else:
                out.append('enc\t%s:%s\t%s' % (rng.choice('1110'), x.hex(), b'typehash=old;'.hex()))
    return out


# ----------------------------------------------------------------------- C18
def services(rep, rng, want=None):
    cs = cases(rep, 'services')
    if want is not None and len(cs) > want:
        cs = rng.sample(cs, want)
    out = []
    for c in cs:
        out.append('svc\t' + profile(rng, c['s'], durations(rng)))
    for _ in range(400):
        out.append('svc\t' + anyprofile(rng, rng.choice([0, .3, 1])))
    return chunk(out)


# ----------------------------------------------------------------------- C19
KEYB = b'typehash'


def rhash(rng):
    v = bytes(rng.choice([0, 9, 10, 15, 16, 59, 61, 127, 128, 160, 255, rng.randrange(256)]) for _ in range(32))
    if rng.random() < .1:
        v = bytes([rng.choice([0, 255, 16])]) * 32
    return v


def entry(rng):
    key = rng.choice(['a', 'Z9', 'typehas', 'typehashx', 'Typehash', 'xtypehash', 'typehashtypehash', 'enclave', 'securitycontext', '0'])
    if rng.random() < .3:
        key = ''.join(rng.choice('abcXYZ019') for _ in range(rng.randint(1, 40)))
        if key == 'typehash':
            key = 'k'
    n = rng.choice([1, 1, 2, 5, 30, 300])
    val = bytes(rng.choice([x for x in range(256) if x != 59]) for _ in range(n))
    if rng.random() < .3:
        val = rng.choice([b'=', b'typehash=', b'==', b'RIHS01_' + b'0' * 64, b'/a/b', b'\x00', b'a\x00b'])
    return key.encode() + b'=' + val + b';'


def hashes(rng, n):
    out = ['parsenull']
    for i in range(n):
        h = rhash(rng)
        tok = '1:' + h.hex()
        text = b'typehash=RIHS01_' + h.hex().encode() + b';'
        prev = rng.choice([b'', b'typehash=old;', b'x' * 200])
        out.append('enc\t%s\t%s' % (tok, prev.hex()))
        if i % 5 == 0:
            out.append('enc\t%s\t%s\tnomem' % (tok, prev.hex()))
        if i % 7 == 0:
            out.append('enc\t0:%s\t%s' % (rng.choice([h.hex(), '00' * 32]), prev.hex()))
        out.append('trip\t%s\t\t' % tok)
        before = b''.join(entry(rng) for _ in range(rng.randint(0, 4)))
        after = b''.join(entry(rng) for _ in range(rng.randint(0, 4)))
        if after and rng.random() < .3:
            after = after[:-1]           # the last separator may be missing
        out.append('trip\t%s\t%s\t%s' % (tok, before.hex(), after.hex()))
        out.append('parse\t' + (before + text + after).hex())
        if i % 5 == 0:
            out.append('trip\t0:%s\t%s\t%s' % ('00' * 32, before.hex(), after.hex()))
        # without a hash, or malformed, or arbitrary
        out.append('parse\t' + (before + after).hex())
        junk = bytes(rng.choice([0, 59, 61, 32, 97, 116, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 3, 8, 60])))
        out.append('parse\t' + junk.hex())
        d = bytearray(before + after)
        for _ in range(rng.randint(1, 3)):
            if d:
                d[rng.randrange(len(d))] = rng.choice([59, 61, 32, 0, 255])
        out.append('parse\t' + bytes(d).hex())
        # a hash entry that is not a hash
        t = bytearray(b'RIHS01_' + h.hex().encode())
        how = rng.randrange(9)
        if how == 0:
            t[rng.randrange(len(t))] = rng.choice([32, 47, 58, 71, 96, 103, 255, 120])
        elif how == 1:
            t = t[:-rng.randint(1, 70)]
        elif how == 2:
            t += b'0' * rng.randint(1, 3)
        elif how == 3:
            t[4:6] = rng.choice([b'00', b'02', b'10', b'11'])
        elif how == 4:
            t = bytearray(rng.choice([b'x', b'RIHS', b'RIHS01_', h.hex().encode(), b'rihs01_' + h.hex().encode(), b'=']))
        elif how == 5:
            t = bytearray(b' ') + t
        elif how == 7:
            t += rng.choice([b' ', b'\n', b'\r\n', b'\t', b',', b'=', b'-', b'\x80', b' x', b' RIHS01_', b', ' + bytes(t), b'=1', b'.0', b'"'])
        elif how == 8:
            t = bytearray(rng.choice([b'\t', b'"', b'=', b'v', b'0', b'\n', b'RIHS01_', b'\xc2'])) + t
        else:
            t[7 + rng.randrange(64)] = rng.choice(b'gGzZ:.')
        out.append('parse\t' + (before + b'typehash=' + bytes(t) + b';' + after).hex())
        if i % 10 == 0:     # a long way into the data, or with a lot to follow
            size = rng.choice([128, 256, 512, 1024, 4096, 8192] + ([65536] if i % 50 == 0 else []))
            size = max(1, size - rng.choice([0, 1, -1, rng.randint(0, 90), rng.randint(0, 90)]))
            many = size < 600 and rng.random() < .5
            far = b'k=v;' * (size // 4 + 1) if many else b'key=' + bytes([rng.choice([61, 0, 97, 255])]) * (size - 5) + b';'
            out.append('parse\t' + (far + text if rng.random() < .7 else text + far).hex())
        # cut anywhere
        whole = before + text
        out.append('parse\t' + whole[:rng.randint(0, len(whole))].hex())
    return chunk(out, 60)


# ----------------------------------------------------------------------- C20
def clamps(rng, n):
    M = 2 ** 31 - 1
    edge = [0, 1, 2, M - 2, M - 1, M, M + 1, M + 2, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 63 - 1, 2 ** 63, U64 - 1, U64]
    ns = [0, 1, G - 2, G - 1, G, G + 1, 2 * G - 1, 2 * G, 10 * G, M, 2 ** 31, 2 ** 32, 2 ** 32 * G, M * G - 1, M * G, M * G + 1,
          M * G + G - 1, (M + 1) * G - 1, (M + 1) * G, (M + 1) * G + 1, (M - 1) * G, U64 - 1, U64, 2 ** 63, 2 ** 63 - 1, 2 ** 62]
    pts = {(s, x) for s in edge for x in ns if x <= U64}
    for s in edge:                      # around the point where the sum leaves the range
        for k in (-1, 0, 1):
            for x in (0, 1, G - 1):
                v = (M - s + k) * G + x
                if 0 <= v <= U64:
                    pts.add((s, v))
    for _ in range(n):
        s = rng.choice([rng.randint(0, 10), rng.randint(0, M), M - rng.randint(0, 40), rng.randint(0, U64), M + rng.randint(0, 5)])
        x = rng.choice([rng.randint(0, G), rng.randint(0, 40) * G + rng.randint(0, G - 1), rng.randint(0, U64),
                        max(0, M - s + rng.randint(-2, 2)) * G + rng.randint(0, G - 1)])
        pts.add((s, min(x, U64)))
    # neighbours in order of length, so that monotonicity is judged between them
    out = ['clamp\t%d\t%d' % p for p in sorted(pts, key=lambda p: (p[0] * G + p[1], p))]
    return chunk(out, 100)


def clamp_chains(rng, n, length):
    """Durations that share a part with the one before, or return to an earlier one."""
    out = []
    M = 2 ** 31 - 1
    for _ in range(n):
        out.append('reset')
        s, x = rng.randint(0, 9), rng.randint(0, G - 1)
        past = []
        for _ in range(length):
            w = rng.random()
            if w < .35:
                x = rng.choice([0, 1, G - 1, G, 2 * G, (M - min(s, M)) * G + rng.randint(0, 2 * G), M * G, (M + 1) * G, rng.randint(0, U64), rng.randint(0, 5 * G)])
            elif w < .7:
                s = rng.choice([0, 1, M - 1, M, M + 1, 2 ** 32, rng.randint(0, M), rng.randint(0, U64), U64])
            elif w < .8:
                s, x = min(s + 1, U64), x
            elif past:
                s, x = rng.choice(past[-4:])
            x = min(x, U64)
            past.append((s, x))
            out.append('clamp\t%d\t%d' % (s, x))
    return out


def apalache(rep, module, inv, length):
    """The design, for every value of the parameters, by the symbolic checker."""
    d = tempfile.mkdtemp(prefix='apa-', dir=vlib.BUILD)
    try:
        p = subprocess.run(['apalache-mc', 'check', '--inv=' + inv, '--length=%d' % length, '--out-dir=' + d,
                            os.path.join(vlib.SPEC, module + '.tla')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=300, env=dict(os.environ, JVM_ARGS='-Xmx4g'))
    except (OSError, subprocess.TimeoutExpired) as e:
        raise vlib.CheckError('apalache: %s' % e)
    finally:
        vlib.shutil.rmtree(d, ignore_errors=True)
    out = p.stdout.decode(errors='replace')
    if p.returncode != 0 or 'NoError' not in out:
        raise vlib.CheckError('apalache on %s: exit %d\n%s' % (module, p.returncode, out[-2000:]))
    rep.extra.setdefault('symbolic', []).append({'model': module, 'invariant': inv, 'length': length, 'outcome': 'NoError'})


# ----------------------------------------------------------------------- C21
def gids(rng, n):
    out = []
    vals = [0, 1, 9, 10, 15, 16, 0x4a, 0x7f, 0x80, 0x81, 0xa0, 0xff]
    for i in range(16):                  # exactly one byte differs, all pairs of interesting values
        for a in vals:
            for b in rng.sample(vals, 4):
                base = [rng.choice(vals) for _ in range(16)]
                x, y = list(base), list(base)
                x[i], y[i] = a, b
                out.append((x, y))
    for _ in range(n):
        x = [rng.choice([rng.choice(vals), rng.randrange(256)]) for _ in range(16)]
        y = list(x)
        for _ in range(rng.choice([0, 1, 2, 2, 3, 16])):     # several bytes differ, in opposite directions
            y[rng.randrange(16)] = rng.choice([rng.choice(vals), rng.randrange(256)])
        out.append((x, y))
        if _ % 6 == 0:                   # the same bytes, or words, in another order
            w = rng.choice([1, 2, 4, 8])
            parts = [x[i:i + w] for i in range(0, 16, w)]
            i, j = rng.sample(range(len(parts)), 2)
            parts[i], parts[j] = parts[j], parts[i]
            out.append((x, sum(parts, [])))
    out += [([v] * 16, [w] * 16) for v in vals for w in vals]
    return chunk(['gid\t%s\t%s' % (bytes(a).hex(), bytes(b).hex()) for a, b in out], 100)


def gid_chains(rng, n, length):
    """Pairs of which one changes in one byte, or that change places, or return."""
    out = []
    for _ in range(n):
        out.append('reset')
        a, b = [rng.choice([0, 1, 0x7f, 0x80, 0xff]) for _ in range(16)], None
        b = list(a)
        past = []
        for _ in range(length):
            w = rng.random()
            if w < .35:
                a = list(a)
                a[rng.randrange(16)] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
            elif w < .6:
                b = list(b)
                b[rng.randrange(16)] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
            elif w < .75:
                a, b = b, a
            elif w < .85:
                b = list(a)
            elif past:
                a, b = rng.choice(past[-4:])
            past.append((a, b))
            out.append('gid\t%s\t%s' % (bytes(a).hex(), bytes(b).hex()))
    return out
