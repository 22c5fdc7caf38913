"""Shared machinery of the checks: building drivers from /repo's current sources,
running them, checking recorded traces and models with TLC, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'rmw_dds_common')
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
SHIM = os.path.join(VERIF, 'shim')
REPLAY = os.path.join(VERIF, 'replay')
EVID = os.path.join(VERIF, 'evidence')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1


class CheckError(Exception):
    """The check itself could not do its work (never a verdict about /repo)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay   # JSON-able description, written to the replay file


# ------------------------------------------------------------------ building
CXXFLAGS = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-w']
ASAN = ['-fsanitize=address']


def _digest(*paths_or_text):
    h = hashlib.sha256()
    for p in paths_or_text:
        h.update(b'\0' + str(p).encode())
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                h.update(f.read())
    return h.hexdigest()[:20]


def _tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(r, f) for f in sorted(fs)]
    return out


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class Builder:
    """Compiles the sources of /repo against the stand-in ROS headers.  Objects are keyed
    by the content of everything that goes into them, so a stale object is never used."""

    def __init__(self):
        self.inputs = _tree(os.path.join(PKG, 'include')) + _tree(os.path.join(SHIM, 'include')) \
            + _tree(os.path.join(PKG, 'msg')) \
            + [os.path.join(VERIF, 'tools', 'gen_msgs.py')] \
            + [f for f in _tree(HARNESS) if f.endswith('.hpp')]
        self.base = _digest(*self.inputs)
        self.dir = BUILD
        os.makedirs(self.dir, exist_ok=True)
        self.gen = os.path.join(self.dir, 'gen-' + self.base)
        if not os.path.isdir(self.gen):
            tmp = tempfile.mkdtemp(dir=self.dir)
            r = _run([sys.executable, os.path.join(VERIF, 'tools', 'gen_msgs.py'),
                      os.path.join(PKG, 'msg'), tmp])
            if r.returncode:
                raise CheckError('message generation failed: ' + r.stderr.decode()[-2000:])
            try:
                os.rename(tmp, self.gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)

    def compile(self, src, flags, redirect=()):
        """redirect: functions of libraries to be replaced by vf_<name>."""
        isc = src.endswith('.c')
        cmd = (['gcc', '-std=gnu11', '-O1', '-g1', '-w'] + [f for f in flags if f != '-std=c++17']) \
            if isc else (['g++'] + CXXFLAGS + flags)
        cmd += ['-I' + os.path.join(PKG, 'include'), '-I' + os.path.join(SHIM, 'include'),
                '-I' + self.gen, '-I' + HARNESS]
        key = _digest(self.base, src, ' '.join(cmd) + ' '.join(redirect))
        obj = os.path.join(self.dir, os.path.basename(src) + '-' + key + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            r = _run(cmd + ['-c', src, '-o', tmp])
            if r.returncode:
                raise CheckError('cannot compile %s:\n%s' % (src, r.stderr.decode()[-4000:]))
            if redirect:
                r = _run(['objcopy'] + ['--redefine-sym=%s=vf_%s' % (f, f) for f in redirect] + [tmp])
                if r.returncode:
                    raise CheckError('objcopy on %s:\n%s' % (src, r.stderr.decode()[-4000:]))
            os.rename(tmp, obj)
        return obj

    def exe(self, name, repo_srcs, own_srcs, repo_flags=None, own_flags=None, link=None, instrumented=(), redirect=()):
        repo_flags = ASAN if repo_flags is None else repo_flags
        own_flags = ASAN if own_flags is None else own_flags
        link = ASAN if link is None else link
        jobs = [(os.path.join(PKG, 'src', s), repo_flags, redirect) for s in repo_srcs]
        jobs += [(os.path.join(HARNESS, s), repo_flags if s in instrumented else own_flags)
                 for s in own_srcs]
        jobs += [(os.path.join(SHIM, 'src', 'shim.c'), own_flags)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda j: self.compile(*j), jobs))
        key = _digest(' '.join(objs + link))
        out = os.path.join(self.dir, name + '-' + key)
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = _run(['g++'] + objs + ['-o', tmp] + link + ['-lpthread', '-ldl'])
            if r.returncode:
                raise CheckError('cannot link %s:\n%s' % (name, r.stderr.decode()[-4000:]))
            os.rename(tmp, out)
        return out


# ------------------------------------------------------------------- drivers
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           LANG='C.UTF-8', LC_ALL='C.UTF-8')


class DriverResult:
    def __init__(self, events, crash, err):
        self.events = events
        self.crash = crash     # None or text
        self.err = err


def run_driver(exe, script, timeout=120, args=()):
    """script: list of command lines.  Returns the recorded events (one per command)."""
    try:
        p = subprocess.run([exe, *args], input=('\n'.join(script) + '\n').encode('utf-8', 'surrogateescape'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        out, err, crash = p.stdout, p.stderr, None
        if p.returncode == 3:
            raise CheckError('driver refused the script: ' + err.decode(errors='replace')[-500:])
        if p.returncode != 0:
            crash = 'exit status %d: %s' % (p.returncode, summary(err))
    except subprocess.TimeoutExpired as e:
        out, err = e.stdout or b'', e.stderr or b''
        crash = 'no answer within %d s' % timeout
    ev = []
    for line in out.split(b'\n'):
        if not line.strip():
            continue
        try:
            ev.append(json.loads(line.decode('utf-8', 'replace')))
        except ValueError:
            if crash is None:
                raise CheckError('driver printed a malformed line: %r' % line[:300])
    return DriverResult(ev, crash, err.decode(errors='replace'))


def summary(err):
    t = err.decode(errors='replace')
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|terminate called[^\n]*\n[^\n]*|Assertion[^\n]*|[^\n]*Assertion [^\n]*)', t)
    return (m.group(1) if m else t[-300:]).strip().replace('\n', ' ')


# ----------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        self.states = self.distinct = 0
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        if m:
            self.states, self.distinct = int(m[-1][0]), int(m[-1][1])

    def mismatches(self):
        return [m.strip() for m in re.findall(r'<<\s*"MISMATCH",.*?>>(?=\n|$)', self.out, re.S)]


def tlc(module, cfg_text, env=None, workers=1, heap='2g', timeout=800, extra=(), outfile=None):
    d = tempfile.mkdtemp(prefix='tlc-', dir=BUILD)
    try:
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
               '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + d,
               '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'md'),
               '-noGenerateSpecTE', '-config', cfg, *extra, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            if outfile:
                with open(outfile, 'wb') as f:
                    p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                with open(outfile, 'rb') as f:
                    f.seek(max(0, os.path.getsize(outfile) - 20000))
                    out = f.read().decode(errors='replace')
            else:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout)
                out = p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC ran out of its %d s on %s' % (timeout, module))
        return TlcResult(p.returncode, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg_text, **kw):
    """Exhaustive exploration of the specification itself.  Anything but success is an
    error of the check: it says nothing about the code."""
    r = tlc(module, cfg_text, **kw)
    if r.rc != 0 or 'No error has been found' not in r.out and 'Progress' not in r.out and not r.states:
        raise CheckError('model %s: TLC exit %d\n%s' % (module, r.rc, r.out[-3000:]))
    return r


def model_refuted(module, cfg_text, **kw):
    """A variant of the model known to be wrong: TLC has to find a counterexample, otherwise the
    model (and with it the check) has become vacuous."""
    r = tlc(module, cfg_text, **kw)
    if r.rc not in (10, 11, 12, 13):
        raise CheckError('model %s: no counterexample for a variant known to be wrong (TLC exit %d)\n%s'
                         % (module, r.rc, r.out[-3000:]))
    return r


def trace_cfg(focus, consts=''):
    return ('SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n  Focus = {%s}\n%s\n' % (', '.join('"%s"' % x for x in sorted(focus)), consts))


def check_trace(module, focus, events, consts='', timeout=800):
    """None if the specification accepts the recorded events, otherwise
    (index of the offending event, explanation)."""
    if not events:
        return None
    fd, path = tempfile.mkstemp(prefix='trace-', suffix='.ndjson', dir=BUILD)
    try:
        with os.fdopen(fd, 'w') as f:
            for e in events:
                f.write(json.dumps(e) + '\n')
        last = None
        for attempt in range(2):
            r = tlc(module, trace_cfg(focus, consts), env={'TRACE_FILE': path}, timeout=timeout)
            if r.rc == 0 and '"ACCEPTED", %d' % len(events) in r.out:
                return None
            m = re.search(r'"REJECTED", (\d+), (\d+)', r.out)
            if m:
                i = int(m.group(1)) - 1
                mm = r.mismatches()
                return (min(i, len(events) - 1), '; '.join(mm[:4]) or 'no action of the specification matches')
            # the recorded value lies outside the domain of the specification
            if 'TLC threw an unexpected exception' in r.out or 'Attempted to' in r.out or \
                    'The error occurred when TLC was evaluating' in r.out:
                m2 = re.findall(r'/\\ l = (\d+)', r.out)
                if m2 and 'OutOfMemory' not in r.out and 'StackOverflow' not in r.out:
                    i = int(m2[-1]) - 1
                    t = re.search(r'(Attempted to[^\n]*|exception[^\n]*\n[^\n]*)', r.out)
                    return (min(max(i, 0), len(events) - 1),
                            'value outside the specification: ' + (t.group(1) if t else ''))
            last = r
        raise CheckError('TLC gave no verdict on a trace of %s (exit %d)\n%s'
                         % (module, last.rc, last.out[-3000:]))
    finally:
        os.unlink(path)


def segments(script):
    """Split a script at its `reset` commands."""
    segs, cur = [], []
    for line in script:
        if line.split('\t', 1)[0] == 'reset' and cur:
            segs.append(cur)
            cur = []
        cur.append(line)
    if cur:
        segs.append(cur)
    return segs


class Conformance:
    """Runs scripts in the real code and lets the trace specification judge the recording."""

    def __init__(self, prop, exe, module, focus, post=None, consts='', driver_timeout=120, scratch=False):
        self.scratch = scratch
        self.prop, self.exe, self.module, self.focus = prop, exe, module, set(focus)
        self.post = post or (lambda evs: evs)
        self.consts = consts
        self.driver_timeout = driver_timeout
        self.traces = 0
        self.events = 0
        self.samples = []

    def once(self, script):
        if self.scratch:
            d = tempfile.mkdtemp(prefix='verif-scratch-')
            try:
                r = run_driver(self.exe, script, self.driver_timeout, args=[d])
            finally:
                shutil.rmtree(d, ignore_errors=True)
        else:
            r = run_driver(self.exe, script, self.driver_timeout)
        if r.crash:
            return (len(r.events), 'the code under test crashed or hung: ' + r.crash, r)
        if len(r.events) != len(script):
            raise CheckError('driver answered %d of %d commands' % (len(r.events), len(script)))
        evs = self.post(r.events)
        bad = check_trace(self.module, self.focus, evs, self.consts)
        if bad:
            return (bad[0], bad[1], r)
        return None

    def _confirm(self, segs, flat_index, what):
        # locate the segment, cut it after the offending command, and run it again alone
        n, seg, k = 0, segs[0], 0
        for s in segs:
            if flat_index < n + len(s):
                seg, k = s, flat_index - n
                break
            n += len(s)
        else:
            seg, k = segs[-1], len(segs[-1]) - 1
        short = seg[:k + 1]
        for script in (short, [x for s in segs for x in s]):
            b = self.once(script)
            if b:
                ev = b[2].events[b[0]] if b[0] < len(b[2].events) else None
                raise Violation(b[1], {
                    'property': self.prop, 'module': self.module, 'focus': sorted(self.focus),
                    'driver': os.path.basename(self.exe).rsplit('-', 1)[0],
                    'script': self.minimise(script) if script is short and 'crashed' not in b[1] else script,
                    'failing_command': script[b[0]] if b[0] < len(script) else None,
                    'explanation': b[1], 'event': ev, 'stderr': b[2].err[-3000:]})
        print('note: a rejection (%s) did not repeat on two re-runs; ignored' % what)

    def minimise(self, script, budget=25.0):
        """Drop commands while the script keeps failing (for the reader's benefit)."""
        t0 = time.time()
        cur = list(script)
        n = 2
        while len(cur) > 2 and time.time() - t0 < budget and n <= len(cur):
            size = max(1, (len(cur) - 2) // n)
            hit = False
            i = 1
            while i < len(cur) - 1 and time.time() - t0 < budget:
                cand = cur[:i] + cur[min(i + size, len(cur) - 1):]
                try:
                    b = self.once(cand)
                except (CheckError, Violation):
                    b = None
                if b and 'no action of the specification' not in b[1] and 'crashed or hung' not in b[1]:
                    cur, hit = cand, True
                else:
                    i += size
            if size == 1 and not hit:
                break
            n = n if hit else n * 2
        return cur

    def run(self, script, groups=None):
        segs = segments(script)
        ng = min(groups or NCPU, len(segs))
        bins = [[] for _ in range(ng)]
        loads = [0] * ng
        for s in segs:
            i = loads.index(min(loads))
            bins[i].append(s)
            loads[i] += len(s)

        def job(b):
            flat = [x for s in b for x in s]
            return b, self.once(flat)
        bad = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for b, res in ex.map(job, bins):
                if res:
                    bad.append((b, res))
        self.traces += len(segs)
        self.events += len(script)
        if segs and len(self.samples) < 3:
            self.samples.append({'module': self.module, 'script': segs[len(segs) // 2][:12]})
        for b, res in bad:
            self._confirm(b, res[0], res[1])


# ----------------------------------------------------- state graphs of models
def canon(v):
    return json.dumps(v, sort_keys=True)


def state_graph(module, cfg_text, workers=NCPU, timeout=800):
    """Explore a model whose Emit prints every transition; returns (edges, TlcResult)
    with edges a list of (source key, action record, target key); the initial state is r.init."""
    fd, path = tempfile.mkstemp(prefix='edges-', dir=BUILD)
    os.close(fd)
    try:
        r = tlc(module, cfg_text, workers=workers, heap='6g', timeout=timeout, outfile=path)
        if r.rc != 0 or not r.states:
            raise CheckError('model %s: TLC exit %d\n%s' % (module, r.rc, r.out[-3000:]))
        edges = []
        seen = set()
        ids = {}
        with open(path, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('"EDGE'):
                    e = json.loads(json.loads(line)[4:])
                    s = ids.setdefault(canon(e['s']), len(ids))
                    t = ids.setdefault(canon(e['t']), len(ids))
                    if e['i']:
                        r.init = s
                    key = (s, canon(e['a']), t)
                    if key in seen:
                        continue
                    seen.add(key)
                    edges.append((s, e['a'], t))
        return edges, r
    finally:
        os.unlink(path)


def emitted(module, cfg_text, **kw):
    """Explore a model that prints the cases it decided ("CASE" and a JSON text): those, once each."""
    fd, path = tempfile.mkstemp(prefix='cases-', dir=BUILD)
    os.close(fd)
    try:
        r = tlc(module, cfg_text, outfile=path, **kw)
        if r.rc != 0 or not r.states:
            raise CheckError('model %s: TLC exit %d\n%s' % (module, r.rc, r.out[-3000:]))
        seen, out = set(), []
        with open(path, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('"CASE') and line not in seen:
                    seen.add(line)
                    out.append(json.loads(json.loads(line)[4:]))
        out.sort(key=canon)
        return out, r
    finally:
        os.unlink(path)


def cover_walks(edges, init, rng, max_len=250, want=None):
    """Walks from `init` that together take every edge (or `want` randomly chosen ones).
    Returns lists of (edge index, first time?)."""
    out = {}
    for i, (s, a, t) in enumerate(edges):
        out.setdefault(s, []).append(i)
    todo = set(range(len(edges)))
    if want is not None and want < len(edges):
        todo = set(rng.sample(sorted(todo), want))
    pend = {s: [i for i in l if i in todo] for s, l in out.items()}
    for l in pend.values():
        rng.shuffle(l)
    # hop from a state to the nearest state with pending edges (bounded breadth-first search)
    from collections import deque

    def hop(src):
        if pend.get(src):
            return []
        prev = {src: None}
        q = deque([src])
        while q:
            u = q.popleft()
            for i in out.get(u, ()):
                v = edges[i][2]
                if v in prev:
                    continue
                prev[v] = (u, i)
                if pend.get(v):
                    path = []
                    while prev[v]:
                        path.append(prev[v][1])
                        v = prev[v][0]
                    return path[::-1]
                q.append(v)
        return None
    walks = []
    left = len(todo)
    while left:
        s, w = init, []
        while len(w) < max_len:
            p = hop(s)
            if p is None:
                break
            w += [(i, False) for i in p]
            if p:
                s = edges[p[-1]][2]
            i = pend[s].pop()
            w.append((i, True))
            left -= 1
            s = edges[i][2]
        if not w:
            break   # the rest is unreachable from init (cannot happen for explored graphs)
        walks.append(w)
    return walks


# ----------------------------------------------------------------- reporting
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def write_evidence(prop, coverage, assumptions, wall, violations, level='model_checking'):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage,
                   'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1)
        f.write('\n')


def write_replay(prop, data):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, '%s-%s.json' % (prop, hashlib.sha256(
        json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
        f.write('\n')
    return p


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = None

    def model(self, name, r):
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({'model': name, 'distinct_states': r.distinct, 'transitions': r.states})

    def conf(self, c):
        self.traces += c.traces
        self.events += c.events
        self.samples += c.samples

    def coverage(self):
        d = {'states': self.states, 'transitions': self.transitions,
             'traces_validated_against_impl': self.traces, 'trace_events': self.events,
             'models': self.models, 'samples': self.samples[:4] or self.models[:2]}
        d.update(self.extra)
        if self.exhaustive is not None:
            d['exhaustive'] = self.exhaustive
        return d
