#!/usr/bin/env python3
"""Small random changes to /repo's sources in a scratch copy, and which of them the checks notice (development aid).
usage: mutate.py SEED COUNT [FILE-REGEX]      results are appended to /tmp/mut/results.txt"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
W = os.environ.get('MUT_DIR', '/tmp/mut')
R = W + '/repo'
seed, count = int(sys.argv[1]), int(sys.argv[2])
pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
rnd = random.Random(seed)
os.makedirs(W, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '--exclude', '.git', '/repo/', R + '/'], check=True)
files = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    a = p['anchors']
    for f in set(re.findall(r'[\w/]+\.[ch]pp', json.dumps(a))):
        files.setdefault(f, []).append(p['id'])
skip = re.compile(r'^\s*(//|#|\*|ASSERT|LOG_|logger::|static_assert|template|using|namespace|PURE|CONST|HOSTDEV|NOLINT|case |default:|include)')
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b3\b', '2'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+= ', ' -= '), (r' -= ', ' += '),
       (r'\+= ', '= '), (r'\bbegin\(\)', 'end()'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\(0\)', '(1)'), (r'\(1\)', '(0)'),
       (r'\bx\b', 'y'), (r'minima', 'maxima'), (r'maxima', 'minima'), (r'!(?=\w)', ''), (r'\bcontinue;', ';'), (r'\bbreak;', ';'),
       (r'(?<=\()([a-z]\w*), ([a-z]\w*)(?=\))', r'\2, \1')]
cands = []
for f in sorted(files):
    if not pat.search(f) or not os.path.exists('/repo/' + f) or f.endswith('cmfd.cpp') or f.endswith('base_gmsh_api.cpp'):
        continue
    lines = open('/repo/' + f).read().split('\n')
    depth = 0
    comment = False
    for k, l in enumerate(lines):
        if '/*' in l: comment = True
        if '*/' in l: comment = False
        if comment or skip.match(l) or len(l) > 200:
            continue
        if '"' in l and ('LOG_' in l or 'error(' in l):
            continue
        body = l.startswith('  ')
        if not body:
            continue
        code = l.split('//')[0]
        for o, n in OPS:
            for m in re.finditer(o, code):
                new = l[:m.start()] + m.expand(n) + l[m.end():]
                cands.append((f, k, new))
        if re.match(r'^\s+[\w\[\]\.:>()\-]+( [-+*]?= .*|\(.*\));$', code) and 'return' not in code:
            cands.append((f, k, re.match(r'^\s*', l).group(0) + ';'))
by = {}
for c in cands:
    by.setdefault(c[0], []).append(c)
# files weighted by the root of their number of candidates
names = sorted(by)
w = [len(by[n]) ** 0.5 for n in names]
print(len(cands), 'candidates in', len(names), 'files', flush=True)
log = open(W + '/results.txt', 'a')
for it in range(count):
    f, k, new = rnd.choice(by[rnd.choices(names, w)[0]])
    src = open('/repo/' + f).read().split('\n')
    old = src[k]
    src[k] = new
    open(R + '/' + f, 'w').write('\n'.join(src))
    t0 = time.time()
    res, by_whom = 'SURVIVED', []
    # compiles?
    for pid in files[f]:
        r = subprocess.run(['python3', V + '/run.py', pid], env=dict(os.environ, VERIF_REPO=R, VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors='replace')
        if r.returncode == 1:
            res, by_whom = 'caught', [pid]
            break
        if r.returncode != 0:
            if re.search(r'error: ', out) and re.search(r'\.[ch]pp:\d+:\d+: (fatal )?error: ', out):
                res = 'nocompile'
                break
            by_whom.append(pid + ':' + str(r.returncode) + ':' + ' '.join(out.strip().split('\n')[-3:])[:300])
            res = 'UNDECIDED'
    open(R + '/' + f, 'w').write(open('/repo/' + f).read())
    line = '%s %s:%d %s\n    - %s\n    + %s\n' % (res, f, k + 1, '%.0fs ' % (time.time() - t0) + ' '.join(by_whom), old.strip(), new.strip())
    log.write(line)
    log.flush()
    print(line, end='', flush=True)
