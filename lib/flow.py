"""Profiles flowing through graph caches (C29)."""
import os

import graph
import values
import vlib
from values import BA, INF, NONE, G, U64


def driver(b):
    return b.exe('flow_driver', ['graph_cache.cpp', 'gid_utils.cpp', 'qos.cpp', 'time_utils.cpp'], ['flow_driver.cpp'])


def rhash(rng):
    v = rng.choice([0, 1, 1, 1])
    return '%d:%s' % (v, bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(32)).hex())


def around(rng):
    return rng.choice(['', '', 'a=b;', 'enclave=/x;', 'typehashx=1;', 'k=%s;' % ('v' * 300)]).encode().hex()


def cfg(emit, pubs=1, subs=2, catalog=('open', 'strong', 'weak'), ctxs=2):
    t = open(os.path.join(vlib.SPEC, 'Flow.cfg')).read().replace('EMITON', 'TRUE' if emit else 'FALSE')
    t = vlib.re.sub(r'Pubs = .*', 'Pubs = {%s}' % ', '.join('"p%d"' % (i + 1) for i in range(pubs)), t)
    t = vlib.re.sub(r'Subs = .*', 'Subs = {%s}' % ', '.join('"s%d"' % (i + 1) for i in range(subs)), t)
    t = vlib.re.sub(r'Catalog = .*', 'Catalog = {%s}' % ', '.join('"%s"' % c for c in catalog), t)
    return vlib.re.sub(r'Ctxs = .*', 'Ctxs = %d' % ctxs, t)


def models(rep, deep):
    runs = [('2 publishers, 1 subscription', dict(pubs=2, subs=1)),
            ('2 publishers, 2 subscriptions, all open', dict(pubs=2, subs=2, catalog=('open',)))]
    if deep:
        runs += [('five kinds of profiles', dict(catalog=('open', 'strong', 'weak', 'long', 'half'))),
                 ('5 kinds, 2 publishers', dict(pubs=2, subs=1, catalog=('open', 'strong', 'weak', 'long', 'half'))),
                 ('3 publishers, 2 subscriptions, all open', dict(pubs=3, subs=2, catalog=('open',)))]
    else:
        runs += [('long durations', dict(catalog=('open', 'long', 'half'), pubs=1, subs=1))]
    for name, kw in runs:
        rep.model('Flow, ' + name, vlib.model_check('MCFlow', cfg(False, **kw), workers=vlib.NCPU, heap='8g'))
    c = cfg(False, pubs=2, subs=1)
    vlib.model_refuted('MCFlow', c.replace('  DMax <- Max', '  DMax <- Max\n  Informed <- Always'), workers=vlib.NCPU)
    rep.extra.setdefault('refuted_variants', []).append('Flow with uninformed creators')
    for a, b in (('AllOpenFits', 'NeverMismatch'), ('FitsKnown', 'SubscriptionFitsInAll')):
        vlib.model_refuted('MCFlow', c.replace(a, b), workers=vlib.NCPU)
        rep.extra.setdefault('refuted_variants', []).append('Flow with ' + b)


def catalog(rng):
    """Concrete profiles for those of the model."""
    one = rng.choice([(0, 1), (1, 0), (5, 7), (2 ** 31 - 1, 0), (2 ** 31 - 1, G - 2)])
    six = rng.choice([(2 ** 31, 0), (2 ** 31, 1), (2 ** 32, 0), (2 ** 32 + 3, 5), (BA[0], 0), (2 ** 63, 0)])
    d = {0: NONE, 1: one, 6: six, 96: BA, 97: INF}

    def p(rel, dur, liv, dl, ll):
        return {'rel': rel, 'dur': dur, 'liv': liv, 'dl': (dl,), 'll': (ll,)}
    m = {'open': p('best_available', 'best_available', 'best_available', 96, 96),
         'strong': p('reliable', 'transient_local', 'manual_by_topic', 1, 1),
         'weak': p('best_effort', 'volatile', 'automatic', 0, 0),
         'long': p('reliable', 'volatile', 'automatic', 97, 6),
         'half': p('best_available', 'volatile', 'best_available', 96, 1)}
    return lambda n: values.profile(rng, m[n], {(k,): v for k, v in d.items()})


def walks(rep, rng, want=None, **kw):
    edges, r = vlib.state_graph('MCFlow', cfg(True, **kw))
    rep.model('Flow, replayed', r)
    out = []
    for w in vlib.cover_walks(edges, r.init, rng, want=want):
        prof = catalog(rng)
        topic, typ = rng.choice(['/chatter', '/a/b', '/%C3%A9', '']), rng.choice(['std_msgs::msg::dds_::String_', ''])
        ids = {}

        def gid(name):
            if name not in ids:
                fam = graph.gid_family(rng, 8)
                ids[name] = next(g for g in fam + [bytes(rng.randrange(256) for _ in range(16)).hex()] if g not in used)
                used.add(ids[name])
            return ids[name]
        used = set()
        out.append('reset\t%d' % kw.get('ctxs', 2))
        for i, first in w:
            a = edges[i][1]
            if a['op'] == 'create':
                ids.pop(a['gid'], None)       # the model forgets what is gone; in the world ids are never reused
                out.append('\t'.join(['create', str(a['c']), a['side'], gid(a['gid']), topic, typ, prof(a['n']), '0', rhash(rng)]))
            elif a['op'] == 'find':
                out.append('\t'.join(['find', str(a['c']), a['side'], gid(a['gid']), around(rng), around(rng)]))
            elif a['op'] == 'lose':
                out.append('\t'.join(['lose', str(a['c']), a['side'], gid(a['gid'])]))
            else:
                out.append('\t'.join(['destroy', a['side'], gid(a['gid'])]))
            if first:
                out.append('match\t' + topic)
                if rng.random() < .3:
                    out.append('\t'.join(['list', str(rng.randint(1, 2)), rng.choice(['pub', 'sub']), topic]))
    rep.extra['model_transitions_replayed'] = len(edges) if want is None else min(want, len(edges))
    return out


def histories(rng, count, length, crowd=0):
    """Random worlds: several topics whose names resemble each other, profiles that leave all, some or
    nothing open, contexts that discover at their own pace."""
    out = []
    for _ in range(count):
        n = rng.randint(1, 4)
        topics = rng.choice([['/chatter', '/chatter2', '/chatte'], ['/t'], ['', '/', '//'], ['/a', '/A', '/%C3%A9', '/b']])
        types = ['T1', 'T2', 'std_msgs::msg::dds_::String_']
        open_world = rng.random() < .5
        speed = rng.choice([.1, .5, 1])       # how soon the others find what is new
        pool = list(dict.fromkeys(sum((graph.gid_family(rng, 16) for _ in range((length + 60) // 12)), [])))
        rng.shuffle(pool)
        world, known = {}, [dict() for _ in range(n)]
        out.append('reset\t%d' % n)

        def profile():
            x = rng.random()
            if open_world or x < .35:
                return catalog(rng)('open')
            if x < .8:
                return catalog(rng)(rng.choice(['strong', 'weak', 'long', 'half', 'open']))
            q = values.anyprofile(rng, rng.choice([0, .3]))
            return q

        def find(c, k):
            out.append('\t'.join(['find', str(c), k[0], k[1], around(rng), around(rng)]))
            known[c - 1][k] = 1
        steps = 0
        todo = crowd
        while steps < length or todo > 0:
            steps += 1
            x = rng.random()
            if todo > 0:
                x = 0
                todo -= 1
            if x < .35 and pool:
                c, k = rng.randint(1, n), (rng.choice(['pub', 'sub']), pool.pop())
                if crowd and todo > 2:
                    k = (('pub' if len(out) % 50 else 'sub'), k[1])
                if open_world and rng.random() < .95:   # the creator knows all there is
                    for o in list(world):
                        if o not in known[c - 1]:
                            find(c, o)
                svc = '1' if not open_world and rng.random() < .1 else '0'
                t = topics[0] if rng.random() < .6 else rng.choice(topics)
                out.append('\t'.join(['create', str(c), k[0], k[1], t, rng.choice(types), profile(), svc, rhash(rng)]))
                world[k] = t
                known[c - 1][k] = 1
                for d in range(1, n + 1):
                    if d != c and rng.random() < speed:
                        find(d, k)
            elif x < .55 and world:
                find(rng.randint(1, n), rng.choice(list(world)))
            elif x < .65:
                c = rng.randint(1, n)
                ks = list(known[c - 1]) or list(world)
                if ks:
                    k = rng.choice(ks)
                    out.append('\t'.join(['lose', str(c), k[0], k[1]]))
                    known[c - 1].pop(k, None)
            elif x < .75 and world:
                k = rng.choice(list(world))
                out.append('\t'.join(['destroy', k[0], k[1]]))
                del world[k]
                for d in range(1, n + 1):
                    if k in known[d - 1] and rng.random() < speed:
                        out.append('\t'.join(['lose', str(d), k[0], k[1]]))
                        known[d - 1].pop(k)
            elif x < .9:
                out.append('\t'.join(['list', str(rng.randint(1, n)), rng.choice(['pub', 'sub']), rng.choice(topics)]))
            else:
                out.append('match\t' + rng.choice(topics))
        for t in topics:
            out.append('match\t' + t)
            for c in range(1, n + 1):
                out += ['list\t%d\t%s\t%s' % (c, s, t) for s in ('pub', 'sub')]
    return out


def revolve(rng, count, length):
    """A few endpoints of one kind on a topic, one of them replaced at a time (or lost and found again by one of two
    contexts); after each change an endpoint of the other kind is created, mostly with everything left open."""
    out = []
    for _ in range(count):
        side = rng.choice(['pub', 'sub'])
        other = 'sub' if side == 'pub' else 'pub'
        pool = list(dict.fromkeys(sum((graph.gid_family(rng, 16) for _ in range(length // 4 + 3)), [])))
        rng.shuffle(pool)
        out.append('reset\t2')
        prof = catalog(rng)
        live, missing = [], set()

        def create(c, s, p, found=True):
            g = pool.pop()
            out.append('\t'.join(['create', str(c), s, g, '/t', 'T', p, '0', rhash(rng)]))
            if found:
                out.append('\t'.join(['find', str(3 - c), s, g, '', '']))
            return g
        kinds = rng.choice([['strong'] * 3 + ['weak'], ['strong'] * 2 + ['long', 'weak', 'open'], ['long', 'strong'], ['weak'] * 3 + ['strong']])
        size = rng.choice([1, 2, 3, 4, 6])
        for _ in range(length):
            if not pool or len(pool) < 3:
                break
            if len(live) < size:
                live.append(create(rng.randint(1, 2), side, prof(rng.choice(kinds))))
                continue
            i = rng.randrange(len(live))
            if rng.random() < .7:
                g = live.pop(i)
                out.append('\t'.join(['destroy', side, g]))
                out += ['\t'.join(['lose', str(c), side, g]) for c in (1, 2)]
                live.append(create(rng.randint(1, 2), side, prof(rng.choice(kinds))))
                missing.discard(g)
            elif live[i] in missing:
                out.append('\t'.join(['find', '1', side, live[i], '', '']))
                missing.discard(live[i])
            else:
                out.append('\t'.join(['lose', '1', side, live[i]]))
                missing.add(live[i])
            q = prof('open') if rng.random() < .8 else prof('half')
            c = 1 if rng.random() < .8 else 2
            g = create(c, other, q, found=False)
            out.append('match\t/t')
            out.append('\t'.join(['destroy', other, g]))
            out.append('\t'.join(['lose', str(c), other, g]))
    return out
