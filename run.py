#!/usr/bin/env python3
"""Decides one property: compiles its harnesses with /repo's current sources to LLVM IR, runs the
symbolic executor on every entry, replays counterexamples and witness paths against a native
(AddressSanitizer) build of the same sources, and writes evidence/<id>.json.

  run.py P01 [--entry NAME] [--keep] [--time S]
Exit: 0 held, 1 violation (VIOLATION line), 2 the check could not decide."""
import argparse, fcntl, glob, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CACHE = os.path.join(BUILD, 'cache')
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

CONFIG = {'UM2_ENABLE_ASSERTS': 1, 'UM2_ENABLE_BMI2': 1, 'UM2_ENABLE_FASTMATH': 0,
          'UM2_ENABLE_FLOAT64': 1, 'UM2_ENABLE_SIMD_VEC': 1, 'UM2_USE_BLAS_LAPACK': 0,
          'UM2_USE_CUDA': 0, 'UM2_USE_GMSH': 0, 'UM2_USE_MPACT_XSLIBS': 0, 'UM2_USE_HDF5': 0,
          'UM2_USE_OPENMP': 0, 'UM2_USE_PUGIXML': 0}
COMMON = ['-std=c++20', '-DNDEBUG', '-march=x86-64-v3', '-fno-math-errno', '-fno-trapping-math',
          '-fno-signed-zeros', '-ffp-contract=off', '-w']
SYM = ['-O1', '-fno-pic', '-DSYMX=1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize',
       '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm', '-c', '-fno-threadsafe-statics',
       '-U_FORTIFY_SOURCE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-stack-protector', '-fno-rtti', '-fno-finite-loops']
NAT = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-signaling-nans', '-c']


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/include', REPO + '/src', REPO + '/cmake', V + '/rt', V + '/models', V + '/harness/inc'):
        for d, dn, fs in os.walk(root):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if p.endswith('um2/config.hpp'):
                    continue
                h.update(p.encode())
                try:
                    h.update(open(p, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()[:24]


def make_config(over, dest):
    src = open(REPO + '/cmake/config.hpp.in').read()
    val = dict(CONFIG)
    val.update(over)
    src = re.sub(r'#cmakedefine01\s+(\w+)', lambda m: '#define %s %d' % (m.group(1), val.get(m.group(1), 0)), src)
    src = src.replace('@UM2_MAX_LOG_LEVEL@', '4')
    src = re.sub(r'@\w+@', '', src)
    os.makedirs(dest + '/um2', exist_ok=True)
    p = dest + '/um2/config.hpp'
    if not os.path.exists(p) or open(p).read() != src:
        tmp = p + '.%d.%d' % (os.getpid(), threading.get_ident())
        open(tmp, 'w').write(src)
        os.rename(tmp, p)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.text = re.sub(r'#include "(\w+\.inc)"', lambda m: open(V + '/harness/inc/' + m.group(1)).read(),
                           open(path).read())
        self.src, self.config, self.models, self.bounds, self.stubs = [], {}, [], [], []
        self.entries, self.flags, self.libs, self.nincs = [], [], [], []
        self.outside = []
        for line in self.text.splitlines():
            m = re.match(r'\s*//\s*@(\w+)\s+(.*)', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'src':
                self.src += v.split()
            elif k == 'config':
                for kv in v.split():
                    a, b = kv.split('=')
                    self.config[a] = int(b)
            elif k == 'models':
                self.models += v.split()
            elif k == 'flags':
                self.flags += v.split()
            elif k == 'native':
                # libraries of the native build; the models then serve the encoding only
                self.libs += [x for x in v.split() if not x.startswith('-I')]
                self.nincs += [x for x in v.split() if x.startswith('-I')]
            elif k == 'bounds':
                self.bounds.append(v)
            elif k == 'outside':
                self.outside.append(v)
            elif k == 'stub':
                self.stubs.append(v)
            elif k == 'entry':
                parts = v.split()
                e = {'name': parts[0], 'mode': 'int', 'time': 120, 'qto': 20, 'tier': 'quick'}
                for kv in parts[1:]:
                    a, b = kv.split('=', 1)
                    e[a] = b
                e['time'] = float(e['time'])
                e['qto'] = float(e['qto'])
                e['harness'] = self
                self.entries.append(e)
        self.cfgdir = os.path.join(BUILD, 'inc', sha(json.dumps(self.config, sort_keys=True)))
        self.labels = set(re.findall(r'vx_(?:assert|near|le|reach)\s*\((?:[^;]*?),?\s*"([^"]+)"\s*\)\s*;', self.text, re.S))

    def incs(self, native):
        r = ['-I' + V + '/rt', '-I' + V + '/harness/inc', '-I' + self.cfgdir]
        for m in [] if native and self.libs else self.models:
            if os.path.isdir(V + '/models/' + m):
                r.append('-I' + V + '/models/' + m)
        r.append('-I' + REPO + '/include')
        return r + self.flags + (self.nincs if native else [])

    def units(self, native):
        u = [self.path] + [os.path.join(REPO, s) for s in self.src]
        for m in [] if native and self.libs else self.models:
            for ext in ('.cpp', '.c'):
                p = V + '/models/' + m + ext
                if os.path.exists(p):
                    u.append(p)
        return u


def compile_unit(h, unit, native, th):
    flags = list(COMMON) + h.incs(native) + (NAT if native else SYM)
    cc = '/usr/bin/g++' if native else '/usr/bin/clang++'
    if unit.endswith('.c') and unit.startswith(V):
        # library models: compiled without builtin recognition so that a loop stays a loop
        flags = [f for f in flags if not f.startswith('-std')] + ['-fno-builtin']
        cc = '/usr/bin/gcc' if native else '/usr/bin/clang'
        flags = [f for f in flags if f not in ('-fno-rtti', '-fno-threadsafe-statics')]
    key = sha(cc, ' '.join(flags), unit, open(unit, 'rb').read(), th)
    out = os.path.join(CACHE, key + ('.o' if native else '.bc'))
    if not os.path.exists(out):
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        run([cc] + flags + [unit, '-o', tmp])
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def build(h, th, ex):
    make_config(h.config, h.cfgdir)
    libc = V + '/models/libc.c'
    fs = [ex.submit(compile_unit, h, u, False, th) for u in h.units(False) + [libc, V + '/models/stdcxx.cpp']]
    fn = [ex.submit(compile_unit, h, u, True, th) for u in h.units(True)]
    fr = ex.submit(compile_unit, h, V + '/rt/vrt_native.cpp', True, th)
    bcs = [f.result() for f in fs]
    key = sha(*bcs)
    bc = os.path.join(CACHE, key + '.linked.bc')
    if not os.path.exists(bc):
        tmp = bc + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        run(['/usr/lib/llvm-18/bin/llvm-link', '-o', tmp] + bcs)
        keep = ','.join(e['name'] for e in h.entries)
        run(['/usr/lib/llvm-18/bin/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, tmp, '-o', tmp + '2'])
        os.rename(tmp + '2', bc)
        os.unlink(tmp)
    h.bc = bc

    def link():
        objs = [f.result() for f in fn] + [fr.result()]
        exe = os.path.join(CACHE, sha('exe', *(objs + h.libs)) + '.exe')
        if not os.path.exists(exe):
            tmp = exe + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
            run(['/usr/bin/g++', '-fsanitize=address', '-rdynamic'] + objs + h.libs + ['-ldl', '-o', tmp])
            os.rename(tmp, exe)
        return exe
    h.link = link


def to_model(inputs, path):
    with open(path, 'w') as f:
        for i in inputs:
            v = i['v']
            if v == 'none':
                continue
            if i['t'] == 'r':
                v = v.replace('?', '').replace(' ', '')
                try:
                    q = Fraction(v)
                except ValueError:
                    q = Fraction(float(v)) if v else Fraction(0)
                try:
                    v = float(q).hex()
                except OverflowError:
                    v = '1e308'
            elif i['t'] == 'i' and i['s'] and i['w'] < 64:
                k = int(v)
                if k >= 1 << (i['w'] - 1):
                    k -= 1 << i['w']
                v = str(k)
            elif i['t'] == 'i' and i['s']:
                k = int(v)
                if k >= 1 << 63:
                    k -= 1 << 64
                v = str(k)
            f.write('%s %s %s\n' % (i['n'].replace(' ', '_'), i['t'], v))


def native(exe, entry, model, tier, obs, fill=190):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:'
                           'detect_stack_use_after_return=0:hard_rss_limit_mb=6000:malloc_fill_byte=%d:max_malloc_fill_size=65536' % fill)
    exe, model, obs = (os.path.abspath(x) for x in (exe, model, obs))
    scratch = tempfile.mkdtemp(dir=os.path.dirname(model))
    try:
        r = subprocess.run([exe, entry, model, str(tier), obs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env, timeout=60, cwd=scratch)
        rc, out = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 124, 'timeout\n' + (e.stdout or b'').decode(errors='replace')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ob = open(obs).read() if os.path.exists(obs) else ''
    if 'Flag parsing failed' in out or rc in (126, 127):
        raise CheckError('native run could not start: ' + out)
    return rc, out[-4000:], ob


def close(a, b):
    a, b = float(a), float(b)
    if a != a and b != b:
        return True
    return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--entry')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--time', type=float)
    ap.add_argument('--dump')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = 1 if a.tier == 'thorough' else 0
    budget = 3000.0 if tier else 650.0
    pid = a.prop
    for d in (BUILD, CACHE, V + '/evidence'):
        os.makedirs(d, exist_ok=True)
    work = os.path.join(BUILD, 'work', '%s-%d' % (pid, os.getpid()))
    os.makedirs(work)
    try:
        rc = check(a, pid, tier, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    out = []
    p = V + '/KNOWN_FINDINGS.txt'
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\w+) entry=(\w+) match="([^"]*)" (.*)', line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def check(a, pid, tier, budget, work, t0):
    if not os.path.exists(BUILD + '/symx'):
        run(['bash', V + '/setup.sh'])
    hs = [Harness(p) for p in sorted(glob.glob(V + '/harness/%s*.cpp' % pid))]
    if not hs:
        raise CheckError('no harness for ' + pid)
    th = tree_hash()
    ex = ThreadPoolExecutor(NPROC)
    bl = ThreadPoolExecutor(len(hs))
    for f in [bl.submit(build, h, th, ex) for h in hs]:
        f.result()
    entries = [e for h in hs for e in h.entries
               if (tier or e['tier'] == 'quick') and (not a.entry or e['name'] == a.entry)]
    pool = work + '/pool'
    open(pool, 'wb').write(b'\0' * 4096)
    pf = open(pool, 'r+b')
    pm = mmap.mmap(pf.fileno(), 4096)
    pending = sorted(entries, key=lambda e: -e['time'])
    running, t_build = [], time.time() - t0
    exes = {h.name: ex.submit(h.link) for h in hs}

    def start(e):
        e['out'] = '%s/%s.%s.jsonl' % (work, e['harness'].name, e['name'])
        e['t0'] = time.time()
        left = max(10.0, budget - (time.time() - t0))
        tl = min(left, a.time or e['time'] * (4 if tier else 3))
        cmd = [BUILD + '/symx', e['harness'].bc, '--entry', e['name'], '--mode', 'real' if e['mode'] == 'real' else 'fp',
               '--tier', str(tier), '--seed', str(a.seed), '--time', str(tl), '--qto', str(e['qto'] * (3 if tier else 2)),
               '--out', e['out'], '--pool', pool, '--procs', str(NPROC), '--tmp', work]
        if a.dump:
            cmd += ['--dump', a.dump]
        if a.v:
            print('start', e['name'], flush=True)
        e['proc'] = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(e['out'] + '.err', 'w'))
        e['tl'] = tl

    while pending or running:
        while pending and len(running) < NPROC and (struct.unpack('i', pm[:4])[0] < NPROC or not running):
            e = pending.pop(0)
            start(e)
            running.append(e)
            time.sleep(0.02)
        for e in list(running):
            if e['proc'].poll() is not None:
                running.remove(e)
                e['wall'] = time.time() - e['t0']
                if a.v:
                    print('done %s %.1fs rc=%s' % (e['name'], e['wall'], e['proc'].returncode), flush=True)
            elif time.time() - e['t0'] > e['tl'] + 90:
                e['proc'].kill()
        time.sleep(0.05)

    errors, incon, viols, wits = [], [], [], []
    tot, reach, ok, funcs = {}, {}, {}, set()
    per = []
    for e in entries:
        st = {}
        if e['proc'].returncode != 0:
            errors.append('%s: executor exit %s %s' % (e['name'], e['proc'].returncode, open(e['out'] + '.err').read()[-500:]))
        for line in open(e['out']) if os.path.exists(e['out']) else []:
            try:
                r = json.loads(line)
            except ValueError:
                errors.append(e['name'] + ': bad output line')
                continue
            if r['t'] == 'stat':
                for k, x in r.items():
                    if isinstance(x, (int, float)):
                        st[k] = st.get(k, 0) + x
                for k, x in r['reach'].items():
                    reach[k] = reach.get(k, 0) + x
                for k, x in r['ok'].items():
                    ok[k] = ok.get(k, 0) + x
                funcs.update(r['funcs'])
            elif r['t'] == 'viol':
                viols.append((e, r))
            elif r['t'] == 'witness':
                wits.append((e, r))
            elif r['t'] == 'inconclusive':
                incon.append('%s: %s at %s' % (e['name'], r['why'], r['where']))
            elif r['t'] == 'error':
                errors.append('%s: %s at %s' % (e['name'], r['msg'], r['where']))
        if not st.get('paths') and not any(v[0] is e for v in viols):
            errors.append(e['name'] + ': no path was completed')
        per.append({'entry': e['name'], 'mode': e['mode'], 'paths': st.get('paths', 0), 'queries': st.get('queries', 0),
                    'asserts': st.get('asserts', 0), 'solver_s': round(st.get('solver_s', 0), 2), 'wall_s': round(e['wall'], 2)})
        for k, x in st.items():
            tot[k] = tot.get(k, 0) + x

    # replay
    try:
        exe = {k: f.result() for k, f in exes.items()}
    except CheckError as x:
        exe = {}
        errors.append(str(x))
    confirmed, unconf = [], []
    if exe:
        def rep(i, e, r):
            m, o = '%s/v%d.model' % (work, i), '%s/v%d.obs' % (work, i)
            to_model(r['inputs'], m)
            for fill in (190, 1, 255) if r.get('undef') else (190,):
                rc, out, ob = native(exe[e['harness'].name], e['name'], m, tier, o, fill)
                if rc not in (0, 78, 3):
                    return rc, out, ob, m
            return rc, out, ob, m
        for (e, r), f in [((e, r), ex.submit(rep, i, e, r)) for i, (e, r) in enumerate(viols)]:
            rc, out, ob, m = f.result()
            (confirmed if rc not in (0, 78, 3) else unconf).append((e, r, rc, out, m))
    validated, diverged, wfail = 0, [], []
    samples = []
    if exe and not confirmed:
        def wrep(i, e, r):
            m, o = '%s/w%d.model' % (work, i), '%s/w%d.obs' % (work, i)
            to_model(r['inputs'], m)
            return native(exe[e['harness'].name], e['name'], m, tier, o) + (m,)
        for (e, r), f in [((e, r), ex.submit(wrep, i, e, r)) for i, (e, r) in enumerate(wits)]:
            rc, out, ob, m = f.result()
            got = [l[4:].rsplit(' ', 1) for l in ob.splitlines() if l.startswith('OBS ')]
            good = rc == 0 and len(got) == len(r['obs'])
            why = 'exit %d %s %s' % (rc, out[-300:], [(i['n'], i['v']) for i in r['inputs']][:40] if rc == 78 else '') if rc else ''
            if rc == 0 and not good:
                why = 'observation count %d vs %d' % (len(got), len(r['obs']))
            if good:
                for (gn, gv), (en, ev) in zip(got, r['obs']):
                    if gn != en or (ev is not None and not close(gv, ev)):
                        good = False
                        why = '%s: native %s, encoding %s' % (en, gv, ev)
                        break
            if good:
                validated += 1
                if len(samples) < 4:
                    samples.append({'entry': e['name'], 'inputs': {i['n']: i['v'] for i in r['inputs'][:12]}})
            elif e['mode'] == 'real':
                diverged.append('%s: %s' % (e['name'], why))
            else:
                if rc in (0, 78, 3):
                    errors.append('encoding and native run disagree: %s: %s' % (e['name'], why))
                else:
                    # a concrete run of the real code that fails the property
                    confirmed.append((e, {'kind': 'witness', 'msg': why, 'where': '', 'inputs': r['inputs']}, rc, out, m))
    if wits and not validated and not confirmed and not viols:
        errors.append('no witness path could be validated against the native build: ' + '; '.join(diverged[:3]))

    # vacuity
    missing = sorted(set().union(*[h.labels for h in hs]) - set(reach)) if not a.entry else []
    thorough_only = any(e['tier'] != 'quick' for h in hs for e in h.entries)
    if missing and not viols and not errors and not incon and not (thorough_only and not tier):
        errors.append('assertions never reached: ' + ', '.join(missing))

    known = known_findings(pid)
    rc = 0
    nviol = 0
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (e, r, nrc, out, m) in enumerate(confirmed):
        if nviol >= 6:
            break
        kf = [k for k in known if k[0] == e['name'] and k[1] in (r['kind'] + ' ' + r['msg'] + ' ' + r['where'])]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0][2]))
            continue
        nviol += 1
        rp = os.path.join(rdir, '%s-%d.txt' % (pid, i))
        with open(rp, 'w') as f:
            f.write('property %s entry %s (%s)\nwhat: %s: %s\nwhere: %s\nnative exit %d:\n%s\ninputs:\n' %
                    (pid, e['name'], e['harness'].path, r['kind'], r['msg'], r['where'], nrc, out))
            f.write(open(m).read())
            f.write('\nreplay: save the input lines as M, then run: %s %s M %d\n' % (exe[e['harness'].name], e['name'], tier))
        print('%s: %s: %s\n  at %s\n  native run: exit %d %s' % (e['name'], r['kind'], r['msg'], r['where'], nrc, out.strip()[-300:]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    for e, r, nrc, out, m in unconf:
        msg = '%s: counterexample not reproduced natively (exit %d): %s: %s at %s' % (e['name'], nrc, r['kind'], r['msg'], r['where'])
        incon.append(msg)
        if a.v:
            print(open(m).read())
    if rc == 0 and (errors or incon):
        rc = 2
    if len(confirmed) > nviol and rc == 1:
        print('(%d confirmed counterexamples in total)' % len(confirmed))
    for x in errors:
        print('ERROR ' + x)
    for x in incon[:20]:
        print('INCONCLUSIVE ' + x)
    if a.v:
        for x in diverged:
            print('DIVERGED ' + x)
        for p in per:
            print(p)
        print('missing labels', missing)
    ev = {'property': pid, 'tier': 'thorough' if tier else 'quick', 'seed': a.seed, 'level': 'model_checking',
          'coverage': {
              'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('insts', 0)),
              'traces_validated_against_impl': validated, 'samples': samples,
              'meaning': 'states = feasible execution paths decided; transitions = IR instructions executed symbolically',
              'technique': 'symbolic execution of LLVM IR compiled from /repo, every branch and assertion decided by SMT',
              'solvers': 'Z3 (bit-vectors, IEEE floats, nonlinear reals), cvc5 as second opinion for unsat',
              'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs),
              'bounds': [b for h in hs for b in h.bounds], 'outside_bounds': [b for h in hs for b in h.outside],
              'queries_discharged': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('sat', 0)),
              'queries_unsat': int(tot.get('unsat', 0)), 'queries_unknown': int(tot.get('unknown', 0)),
              'solver_s': round(tot.get('solver_s', 0), 2), 'forks': int(tot.get('forks', 0)),
              'assertions_checked': int(tot.get('asserts', 0)), 'assertions_by_own_query': int(tot.get('asserts_solver', 0)),
              'identities_by_grouped_query': int(tot.get('ident_solver', 0)),
              'identities_by_normal_form_only': int(tot.get('ident_nf', 0)),
              'assertions_constant_after_simplification': int(tot.get('asserts_trivial', 0)) - int(tot.get('ident_solver', 0)) - int(tot.get('ident_nf', 0)),
              'memory_accesses_checked': int(tot.get('memchecks', 0)),
              'assertion_labels_reached': {k: reach[k] for k in sorted(reach)},
              'rounding_divergent_witnesses': diverged, 'counterexamples_unconfirmed': len(unconf),
              'inconclusive': incon, 'errors': errors, 'entries': per, 'build_s': round(t_build, 2)},
          'assumptions': [s for h in hs for s in h.stubs] + (
              ['entries in mode=real decide the statement over the real numbers (rounding is outside the encoding)']
              if any(e['mode'] == 'real' for e in entries) else []),
          'violations': nviol, 'wall_s': round(time.time() - t0, 2)}
    tmp = V + '/evidence/%s.json.tmp' % pid
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, V + '/evidence/%s.json' % pid)
    print('%s: %s; %d paths, %d queries (%.1f s solver), %d assertions, %d/%d witnesses validated, %.1f s'
          % (pid, {0: 'held', 1: 'violated', 2: 'undecided'}[rc], tot.get('paths', 0), tot.get('queries', 0),
             tot.get('solver_s', 0), tot.get('asserts', 0), validated, len(wits), time.time() - t0))
    return rc


if __name__ == '__main__':
    try:
        main()
    except CheckError as e:
        print('ERROR ' + str(e))
        sys.exit(2)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)
