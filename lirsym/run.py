"""The check of one property: build, encode, explore, replay, evidence."""
import fcntl
import argparse
import glob
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import resource
import shutil
import struct
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build
def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e


def forget(target, names):
    """Drop cargo's record of the crates whose sources may have changed, whatever their time stamps say."""
    for prof in ('release', 'debug'):
        for d in ('.fingerprint', 'deps', 'build', 'incremental'):
            for n in names:
                for pat in (n + '-*', 'lib' + n + '-*'):
                    for f in glob.glob(os.path.join(target, prof, d, pat)) + glob.glob(
                            os.path.join(target, prof, d, n + '.*')):
                        if os.path.isdir(f):
                            shutil.rmtree(f, ignore_errors=True)
                        else:
                            try:
                                os.unlink(f)
                            except OSError:
                                pass


def alone(dir):
    """A lock so that checks that run at the same time build one after another."""
    os.makedirs(dir, exist_ok=True)
    f = open(os.path.join(dir, '.building'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_ir(prop):
    with alone(os.path.join(BUILD, 'ir')):
        return build_ir_alone(prop)


def build_ir_alone(prop):
    """Compile kuba with the property's harnesses to one LTO module. -> path of its textual IR."""
    t = os.path.join(BUILD, 'ir')
    forget(t, ('kuba', 'harness'))
    r = subprocess.run(['cargo', 'build', '--release', '--lib', '--offline', '--features', prop.lower()],
                       cwd=os.path.join(ROOT, 'harness'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=env(CARGO_TARGET_DIR=t,
                               RUSTFLAGS='-C no-vectorize-loops -C no-vectorize-slp -C save-temps'))
    if r.returncode:
        raise SystemExit('harness does not build:\n' + r.stdout[-6000:])
    bcs = [f for f in glob.glob(os.path.join(t, 'release/deps/harness*.bc'))
           if not re.search(r'no-opt|\.lto\.|input|metadata', os.path.basename(f))]
    if not bcs:
        raise SystemExit('no bitcode of the harness in ' + t)
    bc = max(bcs, key=os.path.getsize)
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    ll = os.path.join(t, prop + '.ll')
    dis = glob.glob(os.path.join(sysroot, 'lib/rustlib/*/bin/llvm-dis'))[0]
    subprocess.run([dis, bc, '-o', ll], check=True)
    for f in glob.glob(os.path.join(t, 'release/deps/*.bc')):
        os.unlink(f)
    return ll


class Native:
    """The replay program: harnesses compiled natively, inputs from a list."""

    def __init__(self, prop, profile):
        self.prop = prop
        self.profile = profile
        self.exe = None
        self.err = None

    def build(self):
        with alone(os.path.join(BUILD, 'native')):
            self.build_alone()

    def build_alone(self):
        mod = self.prop.lower()
        t = os.path.join(BUILD, 'native')
        src = open(os.path.join(ROOT, 'harness/src', mod + '.rs')).read()
        names = re.findall(r'pub fn ((?:h|t)_\w+)\s*\(\)', src)
        os.makedirs(t, exist_ok=True)
        tab = os.path.join(t, 'table_%s.rs' % mod)
        with open(tab, 'w') as f:
            f.write('#[path = "%s"]\nmod %s;\n' % (os.path.join(ROOT, 'harness/src', mod + '.rs'), mod))
            f.write('static TABLE: &[(&str, fn())] = &[%s];\n' % ', '.join(
                '("%s", %s::%s)' % (n, mod, n) for n in names))
        forget(t, ('kuba', 'replay'))
        cmd = ['cargo', 'build', '--offline', '--features', mod]
        if self.profile == 'release':
            cmd.append('--release')
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'native'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=env(CARGO_TARGET_DIR=t, LV_TABLE=tab))
        if r.returncode:
            self.err = r.stdout[-4000:]
            return
        exe = os.path.join(t, self.profile, 'replay')
        self.exe = os.path.join(t, 'replay-%s-%s' % (mod, self.profile))
        shutil.copy2(exe, self.exe)

    def run(self, lines, timeout=20):
        """-> list of (status, text), one per line; HANG when a line does not end in time."""
        res = [None] * len(lines)
        k = 0
        hangs = 0
        while k < len(lines):
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
            status = None
            try:
                out, _ = p.communicate('\n'.join(lines[k:]) + '\n', timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                status = ('HANG', 'no end after %d s' % timeout)
            done = 0
            for l in out.split('\n'):
                m = re.match(r'@ (\d+) (OK|FAIL|ASSUME) ?(.*)', l)
                if m and int(m.group(1)) == done:
                    res[k + done] = (m.group(2), m.group(3))
                    done += 1
            k += done
            if status and done and k < len(lines):
                continue        # the batch ran out of time, not this line: it starts afresh
            if k < len(lines):
                res[k] = status or ('FAIL', 'crashed with status %s' % p.returncode)
                k += 1
                hangs += 1
                if hangs > 3:
                    break
        return [r or ('SKIP', '') for r in res]


def token(kv):
    k, v = kv
    if k == 'i':
        return 'i%d' % v
    if k == 'b':
        return 'b%08x' % v
    return 'b%08x' % struct.unpack('<I', struct.pack('<f', v))[0]


def line_of(h, inputs):
    return h + ' ' + ' '.join(token(x) for x in inputs)


def shown(inputs):
    out = []
    for k, v in inputs:
        out.append(v if k != 'b' else repr(struct.unpack('<f', struct.pack('<I', v))[0]))
    return out


GRACE = 10       # seconds the exploration goes on after a confirmed violation


# ---------------------------------------------------------------- workers
def worker(conn, prog, base, wid):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(10000)
    from . import exec as X
    ex = X.Executor(prog, {})
    while True:
        task = conn.recv()
        if task is None:
            return
        h, cases, opts, budget = task
        ex.set_opts(opts)
        ex.reset()
        t0 = time.time()
        out = dict(h=h, cases=cases)
        ex.on_violation = lambda v: conn.send(dict(candidate=v, h=h))
        try:
            n = ex.explore(h, cases, budget)
            out['split'] = n
        except MemoryError:
            ex.undecided = True
            ex.notes.add('out of memory')
        except Exception as e:       # an executor defect must not look like success
            import traceback
            ex.undecided = True
            ex.notes.add('executor error: %s %s' % (type(e).__name__, traceback.format_exc()[-2500:]))
        s = ex.stats
        funcs, lines = ex.coverage()
        out.update(paths=ex.paths, ended=ex.ended, checks=ex.checks, covers=ex.covers, violations=ex.violations,
                   notes=sorted(ex.notes), undecided=ex.undecided, samples=ex.samples, funcs=funcs, lines=lines,
                   stats=dict(queries=s.queries, sat=s.sat, unsat=s.unsat, unknown=s.unknown, time=s.time,
                              max_time=s.max_time, steps=s.steps, model_hits=s.model_hits),
                   wall=time.time() - t0)
        conn.send(out)


def explore_all(prog, harnesses, deadline, nproc, verbose, confirm):
    """Run all harnesses on a pool of processes. -> list of task results.
    confirm(h, v) replays a candidate violation; once one is confirmed, the exploration ends soon after."""
    stop = None
    ctx = mp.get_context('fork')
    conns = []
    procs = []
    for w in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, prog, None, w), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    queue = [(h, (), o) for h, o in harnesses]
    idle = list(range(nproc))
    busy = {}
    results = []
    while queue or busy:
        if stop and time.time() > stop:
            queue = []
            for w in list(busy):
                h, cases, o, _ = busy.pop(w)
                procs[w].kill()
                results.append(dict(h=h, cases=cases, undecided=True, notes=['not finished: a violation was found'],
                                    skipped=True))
            break
        while queue and idle:
            h, cases, o = queue.pop(0)
            w = idle.pop()
            left = deadline - time.time()
            if left < 1:
                results.append(dict(h=h, cases=cases, undecided=True, notes=['not started: time budget of the check'],
                                    skipped=True))
                idle.append(w)
                continue
            b = min(left, float(o.get('budget', 1e9)))
            busy[w] = (h, cases, o, time.time() + b + 60)
            conns[w].send((h, cases, o, b))
        if not busy:
            break
        ready = mp.connection.wait([conns[w] for w in busy], timeout=2)
        for c in ready:
            w = conns.index(c)
            h, cases, o, _ = busy[w]
            try:
                r = c.recv()
                if 'candidate' in r:
                    if confirm(h, r['candidate']) and not stop:
                        stop = time.time() + GRACE
                    continue
                busy.pop(w)
                idle.append(w)
            except (EOFError, ConnectionResetError):
                busy.pop(w)
                r = dict(h=h, cases=cases, undecided=True, notes=['worker died'], skipped=True)
            if r.get('split'):
                sub = [(h, cases + (i,), o) for i in range(r['split'])]
                queue = sub + queue
                continue
            if verbose:
                log('  %s%s: %d paths, %d queries, %.1fs %s' % (h, list(cases), r.get('paths', 0), r.get('stats', {}).get(
                    'queries', 0), r.get('wall', 0), 'UNDECIDED' if r['undecided'] else ''))
                for n in r.get('notes', ()):
                    log('    note: ' + n)
            results.append(r)
        now = time.time()
        for w in list(busy):
            if now > busy[w][3]:
                h, cases, o, _ = busy.pop(w)
                procs[w].kill()
                results.append(dict(h=h, cases=cases, undecided=True, notes=['worker killed: over time'], skipped=True))
    for w, p in enumerate(procs):
        if w in idle:
            try:
                conns[w].send(None)
            except OSError:
                pass
        else:
            p.kill()
    return results


# ---------------------------------------------------------------- the check
def harness_list(prop, tier):
    """[(name, opts)] and the labels that must be reached, from the harness source."""
    src = open(os.path.join(ROOT, 'harness/src', prop.lower() + '.rs')).read()
    out = []
    base = {}
    for m in re.finditer(r'^//! opts: (.*)$', src, re.M):
        base.update(parse_opts(m.group(1)))
    for m in re.finditer(r'((?:^//# .*\n|^#\[no_mangle\]\n)*)^pub fn ((h|t)_\w+)\s*\(\)', src, re.M):
        o = dict(base)
        for l in re.findall(r'^//# (.*)$', m.group(1), re.M):
            o.update(parse_opts(l))
        if m.group(3) == 't' and tier != 'thorough':
            continue
        o['tier'] = tier
        out.append((m.group(2), o))
    return out, src


def parse_opts(s):
    o = {}
    for w in s.split():
        k, _, v = w.partition('=')
        o[k] = True if v == '' else int(v) if re.fullmatch(r'-?\d+', v) else v
    return o


def labels_of(src, names):
    """Labels passed to check / cover / expect_panic by the module's source: all must be reached."""
    return sorted(set(re.findall(r'(?:check|cover|expect_panic)\w*!?\([^;]*?"([^"\n]+)"\s*,?\s*\)', src, re.S)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', help='regular expression on harness names (development)')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--ll', help='use this module (development)')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    meta = json.load(open(os.path.join(ROOT, 'lirsym', 'props.json'))).get(prop, {})
    harnesses, src = harness_list(prop, tier)
    if a.only:
        harnesses = [x for x in harnesses if re.search(a.only, x[0])]
    nat = {'release': Native(prop, 'release')}
    th = threading.Thread(target=nat['release'].build)
    th.start()
    try:
        ll = a.ll or build_ir(prop)
    except SystemExit as e:
        th.join()
        log(e)
        sys.exit(2)
    t_build = time.time() - t0
    from . import exec as X
    prog = X.Program(ll)
    present = set(n[1:] for n in prog.mod.fspan)
    missing = [h for h, _ in harnesses if h not in present]
    if missing:
        log('harness missing from the module: ' + ' '.join(missing))
        sys.exit(2)
    deadline = t0 + float(meta.get('deadline', 560 if tier == 'quick' else 3600))
    opts = dict(harnesses)
    found = []
    seen = set()
    per = {}
    rng = random.Random(seed)
    known = known_findings(prop)
    count = dict(tried=0, confirmed=0)

    def replay(h, vecs, timeout):
        for prof in ('release', 'dev'):
            n = nat.get(prof)
            if n is None:
                n = nat[prof] = Native(prop, 'debug' if prof == 'dev' else prof)
                n.build()
            if n.exe is None:
                continue
            for vec, (st, txt) in zip(vecs, n.run([line_of(h, v) for v in vecs], timeout)):
                if st in ('FAIL', 'HANG'):
                    return vec, n, st, txt
        return None

    def is_known(h, txt):
        return any(f[0] == h and f[1] in txt for f in known)

    def confirm(h, v):
        """Replays a candidate violation against the real code. -> whether it is a new violation."""
        key = (h, v['label'])
        per[key] = per.get(key, 0) + 1
        if key in seen or per[key] > 6 or len(found) >= 8:
            return False
        th.join()
        if nat['release'].err:
            return False
        count['tried'] += 1
        vecs = [v['inputs']] + v['alts'] + perturb(v['inputs'], v['kinds'], rng)
        c = replay(h, vecs, 20)
        if c:
            seen.add(key)
            found.append((h, v['label'], c))
            count['confirmed'] += 1
            return not is_known(h, c[3])
        return False

    results = explore_all(prog, harnesses, deadline, a.j, a.v, confirm)
    t_explore = time.time() - t0 - t_build
    th.join()
    if nat['release'].err:
        log('replay program does not build:\n' + nat['release'].err)
        sys.exit(2)

    samples = []
    for r in results:
        for s in r.get('samples', ()):
            samples.append((r['h'], s))

    # 1. candidate violations that were not confirmed
    unconfirmed = [(r['h'], v) for r in results for v in r.get('violations', ()) if (r['h'], v['label']) not in seen]

    # 2. solver models of completed paths, run natively: the encoding against the real build
    validated = 0
    lines = [line_of(h, s) for h, s in samples]
    mism = []
    for (h, s), (st, txt) in zip(samples, nat['release'].run(lines, 60) if lines else []):
        if st == 'OK':
            validated += 1
        elif st in ('FAIL', 'HANG'):
            mism.append((h, s, st, txt))
    for h, s, st, txt in mism:
        c = replay(h, [s], 60)
        if c and not any(f[0] == h for f in found):
            found.append((h, 'native run of an explored path', c))

    # 3. verdict
    bad = False
    rdir = os.path.join(ROOT, 'replays')
    for k, (h, label, (vec, n, st, txt)) in enumerate(found):
        if is_known(h, txt):
            log('KNOWN-FINDING: property=%s %s: %s' % (prop, h, txt[:300]))
            continue
        bad = True
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.txt' % (prop, h, k))
        with open(path, 'w') as f:
            f.write('property: %s\nharness: %s (harness/src/%s.rs)\nsolver: %s\nnative (%s build): %s %s\n'
                    'inputs in the order the harness draws them: %s\nreplay: echo "%s" | %s\n' % (
                        prop, h, prop.lower(), label, n.profile, st, txt, shown(vec), line_of(h, vec), n.exe))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        log('  %s: %s; natively: %s; inputs %s' % (h, label, txt[:300], shown(vec)[:40]))

    cov = summarise(prop, results, harnesses, src)
    wrong = []
    if not bad:
        for h, v in unconfirmed:
            if v['label'].startswith(('unsupported', 'unexplored', 'undecided')):
                continue      # already listed as undecided
            if opts[h].get('soft'):
                cov['notes'].append('%s: not shown under the over-approximation (%s); no concrete input breaks it' % (
                    h, v['label']))
            else:
                wrong.append('%s: %s: model %s does not reproduce natively' % (h, v['label'], shown(v['inputs'])[:40]))
        for r in results:
            if r['undecided'] and not opts[r['h']].get('soft'):
                wrong.append('%s%s undecided: %s' % (r['h'], list(r['cases']), '; '.join(r['notes'])[:600]))
        if not a.only:
            for l in cov['unreached']:
                wrong.append('vacuous: "%s" is never reached' % l)
    cov.update(build_s=round(t_build, 1), explore_s=round(t_explore, 1), candidates_replayed=count['tried'],
               candidates_confirmed=count['confirmed'], traces_validated_against_impl=validated,
               traces_sampled=len(samples))
    write_evidence(prop, tier, seed, cov, meta, time.time() - t0, len(found) if bad else 0)
    log('%s %s: %d harnesses, %d jobs, %d paths, %d IR instructions, checks %d (%d by solver), %d queries, solver %.1fs, '
        'build %.1fs, wall %.1fs' % (
            prop, tier, len(harnesses), len(results), cov['paths'], cov['transitions'], cov['obligations'],
            cov['discharged_by_solver'], cov['solver_queries'], cov['solver_time_s'], t_build, time.time() - t0))
    if bad:
        sys.exit(1)
    if wrong:
        for w in wrong[:20]:
            log('UNDECIDED ' + w)
        # The property held on everything explored.  No answer at all where nothing was explored.
        done = {}
        for r in results:
            done[r['h']] = done.get(r['h'], 0) + r.get('paths', 0)
        open_ = set(r['h'] for r in results if r['undecided'])
        if not any(done.values()) or not open_ and any(w.startswith('vacuous') for w in wrong):
            sys.exit(2)
    sys.exit(0)


def perturb(inputs, kinds, rng):
    """Neighbouring inputs: a solver model over the reals need not be an f32, nor round the worst way."""
    fl = [i for i, k in enumerate(kinds) if k == 'r']
    out = []
    if not fl:
        return out
    for n in range(300):
        v = list(inputs)
        span = 3 if n < 100 else 40 if n < 200 else 2000
        for i in fl:
            b = struct.unpack('<i', struct.pack('<f', v[i][1]))[0]
            d = rng.randint(-span, span)
            x = struct.unpack('<f', struct.pack('<i', max(-(1 << 31), min((1 << 31) - 1, b + d))))[0]
            if x == x:
                v[i] = ('f', x)
        out.append(v)
    return out


def known_findings(prop):
    """Lines `known: property=<id> harness=<name> text=<part of the native result>`."""
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) harness=(\S+) text=(.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def summarise(prop, results, harnesses, src):
    st = dict(queries=0, sat=0, unsat=0, unknown=0, time=0.0, steps=0, model_hits=0)
    mx = 0.0
    checks, covers, funcs, lines = {}, {}, {}, {}
    paths = 0
    ended = {}
    notes = set()
    per = {}
    for r in results:
        if r.get('skipped'):
            notes.update(r['notes'])
            continue
        s = r['stats']
        for k in st:
            st[k] += s[k]
        mx = max(mx, s['max_time'])
        paths += r['paths']
        for l, v in r['checks'].items():
            c = checks.setdefault(l, [0, 0, 0, 0])
            for i in range(4):
                c[i] += v[i]
        for l, v in r['covers'].items():
            covers[l] = covers.get(l, 0) + v
        for l, v in r['ended'].items():
            ended[l] = ended.get(l, 0) + v
        for f, n in r['funcs'].items():
            funcs[f] = max(funcs.get(f, 0), n)
        for f, ls in r['lines'].items():
            lines.setdefault(f, set()).update(ls)
        notes.update(r['notes'])
        p = per.setdefault(r['h'], [0, 0, 0, 0.0])
        p[0] += 1
        p[1] += r['paths']
        p[2] += s['queries']
        p[3] += r['wall']
    reached = set(checks) | set(covers) | set(l[7:] for l in covers if l.startswith('panic: '))
    used = src
    labels = labels_of(strip_thorough(src, [h for h, _ in harnesses]), None)
    samples = []
    for r in results:
        for s in r.get('samples', ())[:1]:
            if len(samples) < 12:
                samples.append(dict(harness=r['h'], cases=list(r['cases']), path_input=shown(s)[:60]))
    return dict(
        states=paths, paths=paths, transitions=st['steps'], samples=samples,
        obligations=sum(sum(c) for c in checks.values()),
        discharged_by_solver=sum(c[1] for c in checks.values()),
        discharged_concretely=sum(c[0] for c in checks.values()),
        solver_queries=st['queries'], queries_sat=st['sat'], queries_unsat=st['unsat'], queries_unknown=st['unknown'],
        branch_decisions_from_model=st['model_hits'],
        solver_time_s=round(st['time'], 2), slowest_query_s=round(mx, 2),
        assertions={l: dict(path_independent=c[0], unsat_negation=c[1], undecided=c[2], violated=c[3])
                    for l, c in sorted(checks.items())},
        reachability_witnesses={l: n for l, n in sorted(covers.items())},
        unreached=[l for l in labels if l not in reached],
        paths_cut={k: n for k, n in sorted(ended.items())},
        functions_encoded=dict(sorted(funcs.items())),
        repo_lines_encoded={f: ranges(v) for f, v in sorted(lines.items())},
        harnesses={h: dict(jobs=p[0], paths=p[1], queries=p[2], cpu_s=round(p[3], 1)) for h, p in sorted(per.items())},
        notes=sorted(notes), jobs=len(results))


def strip_thorough(src, names):
    """The module source without the harnesses not run in this tier."""
    out = src
    for m in re.finditer(r'^pub fn ((?:h|t)_\w+)\s*\(\)\s*\{.*?^\}', src, re.M | re.S):
        if m.group(1) not in names:
            out = out.replace(m.group(0), '')
    return out


def ranges(v):
    v = sorted(v)
    out = []
    for x in v:
        if out and x == out[-1][1] + 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return ' '.join('%d-%d' % (a, b) if a != b else '%d' % a for a, b in out)


def write_evidence(prop, tier, seed, cov, meta, wall, nviol):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    cov['bounds'] = meta.get('bounds', {}).get(tier) or meta.get('bounds', {}).get('quick') or ''
    cov['outside_the_bounds'] = meta.get('outside', '')
    cov['explanation'] = (
        'states: feasible paths explored to the end by the symbolic executor over the LLVM IR regenerated from /repo '
        'in this run; transitions: IR instructions executed on them; obligations: assertion instances, discharged '
        'either by an unsat solver answer for the negation under the path condition or because the value is the same '
        'for all inputs of the path; traces_validated_against_impl: solver models of completed paths run natively '
        'against the real release build with all assertions holding.')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=meta.get('assumptions', []) + COMMON, wall_s=round(wall, 2), violations=nviol)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


COMMON = [
    'rustc 1.99.1 compiles the source to the LLVM IR faithfully (the IR is taken after optimisation); lirsym gives the '
    'IR its documented semantics (cross-checked by running sampled path models natively)',
    'f32 operations on lv_real / lv_fix inputs are modelled over the reals with every possible rounding error up to '
    'half an ulp (an over-approximation), or exactly when the result is representable; lv_f32 inputs use IEEE '
    'semantics in the solver',
    'allocation never fails; HashMap keys are fixed (iteration orders other than the resulting one are not explored)',
]
