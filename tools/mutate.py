#!/usr/bin/env python3
"""mutation campaign (development aid, not a check): mutate.py OUT N [SEED] [FILE...]
Makes N one-token changes in functions the evidence files list as encoded, in a copy of /repo, and runs the properties that
encode the function, cheapest first, until one reports.  Survivors are written to OUT for a human to judge."""
import sys, os, re, json, random, subprocess, shutil, glob, time
V = '/verif'
out, N = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
only = sys.argv[4:]
R, W = '/tmp/mut_repo', '/tmp/mut_verif'
for d in (R, W):
    shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('_build', '.git'))
shutil.copytree(V, W, ignore=shutil.ignore_patterns('.git', 'seeded'))
fn2p, cost = {}, {}
for f in glob.glob(V + '/evidence/P*.json'):
    d = json.load(open(f))
    p = d['property']
    cost[p] = d['wall_s']
    for n in d['coverage']['functions_encoded']:
        m = re.match(r'_ZL(\d+)(.*)', n)
        if m:
            n = m.group(2)[:int(m.group(1))]
        else:
            m = re.match(r'_Z(\d+)(.*)', n)
            if m:
                n = m.group(2)[:int(m.group(1))]
        fn2p.setdefault(n, set()).add(p)
sites = []
for path in sorted(glob.glob(R + '/*.cpp') + glob.glob(R + '/*.c')):
    b = os.path.basename(path)
    if only and b not in only:
        continue
    text = open(path, encoding='latin1').read()
    # blank comments, keep length
    clean = re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    for m in re.finditer(r'^(?:[A-Za-z_].*?)\b(\w+)\s*\(([^;{}]*)\)\s*\n\{\n(.*?)^\}', clean, flags=re.S | re.M):
        fn = m.group(1)
        if fn not in fn2p:
            continue
        o, body = m.start(3), m.group(3)
        nostr = re.sub(r'"(\\.|[^"\\])*"', lambda q: ' ' * len(q.group(0)), body)
        for pat, reps in ((r'<=', ['<']), (r'>=', ['>']), (r'(?<![<\-])<(?![<=])', ['<=']), (r'(?<![>\-])>(?![>=])', ['>=']),
                          (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
                          (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' % ', [' / ']), (r'\+\+', ['--']),
                          (r"(?<![\w.])\d+(?![\w.])", ['+1', '-1']), (r"'[0-9A-Za-z]'", ['ch'])):
            for h in re.finditer(pat, nostr):
                s, e = o + h.start(), o + h.end()
                t = text[s:e]
                for r in reps:
                    if r in ('+1', '-1'):
                        n = str(int(t, 8 if len(t) > 1 and t[0] == '0' else 10) + int(r))
                    elif r == 'ch':
                        n = "'%s'" % chr(ord(t[1]) + 1)
                    else:
                        n = r
                    sites.append((b, s, e, n, fn))
rnd = random.Random(seed)
# balance over functions
by = {}
for x in sites:
    by.setdefault((x[0], x[4]), []).append(x)
keys = sorted(by)
for k in keys:
    rnd.shuffle(by[k])
pick = []
while len(pick) < N and any(by.values()):
    for k in keys:
        if by[k] and len(pick) < N and rnd.random() < .5 + min(.5, len(by[k]) / 100.):
            pick.append(by[k].pop())
print(len(sites), 'sites in', len(keys), 'functions')
log = open(out, 'w')
caught = 0
for i, (b, s, e, n, fn) in enumerate(pick):
    path = R + '/' + b
    text = open(path, encoding='latin1').read()
    mut = text[:s] + n + text[e:]
    open(path, 'w', encoding='latin1').write(mut)
    line = text.count('\n', 0, s) + 1
    desc = '%s:%d %s: %r -> %r   | %s' % (b, line, fn, text[s:e], n, text.splitlines()[line - 1].strip()[:90])
    res, t0 = 'SURVIVED', time.time()
    for p in sorted(fn2p[fn], key=lambda p: cost[p]):
        try:
            r = subprocess.run(['python3-vt', W + '/check.py', p], env=dict(os.environ, VP_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT ' + p
            continue
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            res = 'caught ' + p
            break
        if r.returncode not in (0, 1):
            res = 'rc%d %s %s' % (r.returncode, p, r.stdout[-200:].replace('\n', ' '))
            if 'clang failed' in r.stdout:
                res = 'nocompile'
                break
    open(path, 'w', encoding='latin1').write(text)
    log.write('%-10s %4.0fs %s\n' % (res, time.time() - t0, desc))
    log.flush()
print('done')
