"""Checks of the security file lookup (C22-C25)."""
import vlib

P11 = ['identity_ca.cert.p11', 'cert.p11', 'key.p11', 'permissions_ca.cert.p11']
PEM = ['identity_ca.cert.pem', 'cert.pem', 'key.pem', 'permissions_ca.cert.pem']
REST = ['governance.p7s', 'permissions.p7s']
ALL = P11 + PEM + REST + ['crl.pem']


def driver(b):
    return b.exe('security_driver', ['security.cpp'], ['security_driver.cpp'])


def hexs(s):
    return (s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s).hex()


URIS = ['pkcs11:token=a;object=b?pin-value=1', 'pkcs11:', 'pkcs11:\u00e9%20', 'pkcs11:x' + 'y' * 300, 'pkcs11:pkcs11:']
NOT_URIS = ['', ' ', '\n\t', 'x', 'pkcs11', 'PKCS11:x', 'Pkcs11:a', 'pkcs1:x', 'pkcs11 :x', 'file:///pkcs11:x',
            'x pkcs11:y', '\u00a0pkcs11:x', '"pkcs11:x"', 'kcs11:a', 'ppkcs11:a', '-----BEGIN CERTIFICATE-----\npkcs11:x\n',
            b'\x00pkcs11:x', b'\xef\xbb\xbfpkcs11:x', b'\x00']
PREFIXES = ['', 'file://', 'pkcs11:', '/', '//', 'data:,', 'p ', '\u00e9', 'x' * 120, 'file:///']
STYLES = ['plain'] * 6 + ['slash', 'slashes', 'dots', 'rel', 'dot', 'empty', 'missing', 'long', 'longname', 'file', 'link',
                          'rootloop', 'odd', 'closed']


def p11_text(rng, uri=None):
    if uri is None:
        uri = rng.random() < .55
    if not uri:
        t = rng.choice(NOT_URIS)
        return t if isinstance(t, bytes) else t.encode()
    lead = rng.choice(['', '', ' ', '\n', '\r\n\t ', '\v\f', rng.choice(LONG_WHITES)])
    tail = rng.choice(['', '\n', '\r\n', ' extra', '\tpkcs11:other', '\x00z' if rng.random() < .2 else '\n\n'])
    return (lead + rng.choice(URIS) + tail).encode()


def put(rng, c, name, kind):
    """kind: abstract kind of the model, or a `how` of the driver."""
    text = b'' if rng.random() < .1 else b'-----BEGIN\n'
    how = kind
    if kind == 'uri':
        how = rng.choice(['file', 'file', 'link', 'chain'])
        text = p11_text(rng, True)
    elif kind == 'late':
        how = rng.choice(['file', 'file', 'link'])
        text = p11_text(rng, False)
    elif kind == 'blank':
        how, text = 'file', rng.choice([b'', b' ', b'\n\n\t', b'\r\n'])
    elif kind == 'file':
        how = rng.choice(['file', 'file', 'link', 'chain'])
    elif kind == 'none':
        how = rng.choice(['none', 'none', 'dangling', 'loop', 'loop2', 'notdir', 'longlink'])
    elif kind == 'dir':
        how = rng.choice(['dir', 'linkdir', 'null', 'fifo', 'linkfifo', 'sock'])
    elif kind == 'secret':
        text = rng.choice([b'pkcs11:secret', b'x'])
    elif name in P11 and kind in ('file', 'link', 'chain'):
        text = p11_text(rng)
    return '\t'.join(['put', str(c), name, how, hexs(text)])


def look(rng, c, pkcs=None, form=None, style=None, unpriv=None, result=None):
    form = form or rng.choice(['long', 'long', 'long', 'short'])
    pkcs = rng.choice('01') if pkcs is None else pkcs
    return '\t'.join(['look', str(c), form, pkcs, hexs(rng.choice(PREFIXES)), style or rng.choice(STYLES),
                      result or rng.choice(['keep', 'keep', 'fresh', 'junk']),
                      unpriv if unpriv is not None else rng.choice('0001')])


def complete(rng, c):
    return [put(rng, c, f, 'file') for f in PEM + REST] + ([put(rng, c, 'crl.pem', 'file')] if rng.random() < .5 else [])


TOKENS = ['pkcs11:', 'pkcs11:object=1;type=cert', 'pkcs11', 'PKCS11:a', 'pkcs11-uri:', 'x', '#', '#pkcs11:x', '//', ';', '--',
          '"pkcs11:x"', 'uri=pkcs11:x', '<pkcs11:x>', 'pkcs11;', '=', '\\', "'pkcs11:y'", '\ufeff', 'pkcs11:' + 'z' * 4100,
          'y' * 9000, '\x01', '\x00', '%20', 'pkcs11:a\x00b', 'file:pkcs11:x']
WHITES = [' ', '\n', '\t', '\r\n', '\v', '\f', '  ', '\n\n']
LONG_WHITES = [' ' * 130, '\n' * 300, '\r\n' * 2100, ' ' * 9000]


def texts(rng, n):
    """Contents of .p11 files: every first character, and words of all sorts before, after and around the URI."""
    cases = []
    for ch in [chr(i) for i in list(range(1, 127))] + ['\u00e9', '\x00']:
        cases.append(ch + rng.choice(WHITES) + 'pkcs11:object=%d' % rng.randrange(10))
        cases.append(ch + 'pkcs11:object=%d' % rng.randrange(10))
        cases.append('pkcs11:' + ch + rng.choice(WHITES + ['']) + 'b')
    for _ in range(n):
        k = rng.choice([1, 1, 2, 2, 3, 4])
        cases.append(rng.choice(['', '', rng.choice(WHITES), rng.choice(WHITES + LONG_WHITES)]) + ''.join(
            rng.choice(TOKENS) + rng.choice(WHITES + ['']) for _ in range(k)))
    for w in (16500, 66000):
        cases += [rng.choice(' \n\t') * w + 'pkcs11:x', 'pkcs11:' + 'z' * w, 'pkcs11:a' + ' ' * w + 'b', 'x' * w + ' pkcs11:b']
    rng.shuffle(cases)
    script = []
    for i, text in enumerate(cases):
        if i % 60 == 0:
            script.append('reset\t1')
            script += complete(rng, 1)
        j = rng.randrange(4)
        if rng.random() < .3:
            script.append(put(rng, 1, PEM[j], rng.choice(['none', 'file', 'dir'])))
        script.append('\t'.join(['put', '1', P11[j], rng.choice(['file', 'file', 'link']), hexs(text)]))
        script.append(look(rng, 1, form='long', pkcs='1', style='plain', unpriv='0'))
        if rng.random() < .5:
            script.append(put(rng, 1, P11[j], 'none'))
        if rng.random() < .2:
            script += complete(rng, 1)
    return script


SLICES = ['A', 'B', 'C']


def cfg(name, emit):
    with open(vlib.SPEC + '/Sec_%s.cfg' % name) as f:
        t = f.read().replace('EMITON', 'TRUE' if emit else 'FALSE')
    # liveness is checked in the thorough tier
    return t.replace('LIVE', '' if vlib.TIER == 'quick' else 'Terminates')


def model_walks(rep, name, rng, want=None):
    edges, r = vlib.state_graph('Security', cfg(name, True))
    rep.model('Security/' + name, r)
    script = []
    for w in vlib.cover_walks(edges, r.init, rng, want=want, max_len=120):
        script.append('reset\t1')
        # every file starts plain; unused .p11 files hold no URI
        script += [put(rng, 1, f, 'late') for f in P11] + [put(rng, 1, f, 'file') for f in PEM + REST + ['crl.pem']]
        for i, first in w:
            a = edges[i][1]
            script.append(put(rng, 1, a['name'], a['kind']))
            if first:
                script.append(look(rng, 1, form='long', pkcs='1', style=rng.choice(['plain', 'slash', 'rel']), unpriv='1'))
                script.append(look(rng, 1, form=rng.choice(['long', 'short']), pkcs='0', style='plain', unpriv='1'))
    rep.extra.setdefault('model_transitions_replayed', 0)
    rep.extra['model_transitions_replayed'] += len(edges) if want is None else min(want, len(edges))
    return script


HOWS = ['none', 'file', 'link', 'chain', 'dir', 'linkdir', 'dangling', 'loop', 'loop2', 'notdir', 'longlink', 'secret',
        'null', 'fifo', 'linkfifo', 'sock', 'uri', 'late', 'blank']


def single_faults(rng, rounds=1):
    """From a complete enclave, every file in turn takes every kind of entry."""
    script = []
    for _ in range(rounds):
        for f in ALL:
            script.append('reset\t1')
            script += complete(rng, 1)
            if f in PEM and rng.random() < .5:
                script.append(put(rng, 1, P11[PEM.index(f)], rng.choice(['none', 'uri', 'late'])))
            for h in HOWS:
                script.append(put(rng, 1, f, h))
                for _k in range(2):
                    script.append(look(rng, 1, style='plain', pkcs=rng.choice('01')))
            script.append(put(rng, 1, f, 'file'))
            script.append(look(rng, 1))
    return script


def histories(rng, n, length, enclaves=2):
    script = []
    for _ in range(n):
        script.append('reset\t%d' % enclaves)
        for c in range(1, enclaves + 1):
            if rng.random() < .8:
                script += complete(rng, c)
            for f in P11:
                if rng.random() < .5:
                    script.append(put(rng, c, f, rng.choice(['uri', 'late', 'file'])))
        for _k in range(length):
            c = rng.randrange(1, enclaves + 1)
            x = rng.random()
            if x < .35:
                f = rng.choice(ALL)
                script.append(put(rng, c, f, rng.choice(HOWS if x < .15 else ['file', 'uri', 'late', 'none'])))
            elif x < .4:
                script += complete(rng, c)
            else:
                script.append(look(rng, c))
    return script


def styles(rng):
    script = []
    for st in sorted(set(STYLES)):
        script.append('reset\t2')
        script += complete(rng, 1) + complete(rng, 2)
        script.append(put(rng, 1, 'key.p11', 'uri'))
        for form, pkcs in (('short', '0'), ('long', '0'), ('long', '1')):
            for result in ('fresh', 'keep', 'junk'):
                script.append(look(rng, 1, style=st, form=form, pkcs=pkcs, result=result))
                script.append(look(rng, 2, style='plain', result='keep'))
    return script


def parallel(rng, n, rounds):
    script = []
    for _ in range(n):
        k = 6
        script.append('reset\t%d' % k)
        for c in range(1, k + 1):
            script += complete(rng, c)
            for f in P11:
                if rng.random() < .6:
                    script.append('\t'.join(['put', str(c), f, 'file', hexs('pkcs11:' + '%d' % c * rng.choice([1, 5, 60]))]))
            if rng.random() < .3:
                script.append(put(rng, c, rng.choice(REST), 'none'))
        script.append('\t'.join(['par', str(rounds), '1', hexs('p')]))
        script.append('\t'.join(['par', str(rounds), '0', hexs('q' * 40)]))
    return script


def small(rng):
    """Lookups of three enclaves, and the lines that lay them out, for concurrent programs."""
    put_lines = []
    for c in (1, 2, 3):
        files = PEM + REST + (['crl.pem'] if c != 2 else [])
        for f in files:
            put_lines.append('\t'.join(['pre', 'put', str(c), f, 'file', hexs('-----BEGIN\n')]))
        for f in P11[:c + 1]:
            put_lines.append('\t'.join(['pre', 'put', str(c), f, 'file', hexs('pkcs11:' + 'abc'[c - 1] * (20 * c))]))
    looks = ['\t'.join(['look', str(c), form, pkcs, hexs(prefix), 'plain', result])
             for c in (1, 2, 3, 4) for form, pkcs in (('long', '1'), ('long', '0'), ('short', '0'))
             for prefix in ('', 'file://', 'p' * 90) for result in ('fresh', 'junk')]
    return looks, put_lines
