#!/usr/bin/env python3
"""Development aid (not used by any check): applies small random changes to the files of a property in a scratch copy and lists those the quick check doesn't notice.

usage: mutate.py PID COUNT [SEED] [FILE[:FIRST-LAST]...]
"""
import json, os, random, re, shutil, subprocess, sys, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SX_REPO', '/repo')
pid, count = sys.argv[1], int(sys.argv[2])
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
files = sys.argv[4:]
if not files:
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        if p['id'] == pid:
            files = [re.sub(r':.*', '', f) for f in p['anchors']['files']]
dst = '/tmp/mut_%s_%d' % (pid, os.getpid())
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns('.git', '_build', 'tests', 'testfiles'), symlinks=True)
env = dict(os.environ, SX_REPO=dst)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if \(!', 'if ('), (r'if \((?!!)', 'if (!'), (r' \| ', ' & '), (r' & ', ' | '), (r' << (?=\d)', ' >> '), (r' >> (?=\d)', ' << '),
       (r'\bcontinue;', ';'), (r'\+\+(\w+)', r'\1'), (r'BE\(', 'LE('), (r'LE\(', 'BE(')]
def mutants(path, lo, hi):
    lines = open(path).read().split('\n')
    for n, l in enumerate(lines):
        if not lo <= n + 1 <= hi: continue
        t = l.strip()
        if not l.startswith('    ') or t.startswith(('//', '*', '#', '/*', 'static const', 'case', 'using', 'CPP_')) or 'diag' in l or 'throw' in l or 'context' in l or 'progress' in l or 'reserve' in l or 'template' in l: continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                if '"' in l[:m.start()]: continue
                if a in (r' < ', r' > ') and 'template' in l: continue
                yield n, l[:m.start()] + m.expand(b) + l[m.end():]
        for m in re.finditer(r'(?<![\w.<"\'])(\d+)(?=u?\b)(?![\w.]*")', l):
            if '"' in l[:m.start()]: continue
            yield n, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]
        if re.match(r'[\w.\->\[\]*]+(\(.*\)| [+\-|&]?= .*);$', t) and not re.match(r'(return|auto|const|std::|delete|using)\b', t) and t.count('(') == t.count(')'):
            yield n, ';'
todo = []
for f in files:
    f, _, r = f.partition(':')
    lo, hi = map(int, r.split('-')) if r else (1, 10**9)
    p = os.path.join(dst, f)
    if os.path.exists(p): todo += [(f, n, l) for n, l in mutants(p, lo, hi)]
rnd.shuffle(todo)
print('%d candidates' % len(todo), flush=True)
done, seen = 0, set()
survivors = 0
for f, n, l in todo:
    if done >= count: break
    if (f, n) in seen: continue
    seen.add((f, n))
    p = os.path.join(dst, f)
    orig = open(p).read()
    lines = orig.split('\n')
    old, lines[n] = lines[n], l
    open(p, 'w').write('\n'.join(lines))
    try:
        r = subprocess.run(['timeout', '900', 'python3', 'check.py', pid, '--tier', 'quick', '--no-validate'], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout
        if r.returncode == 1 and 'VIOLATION' in out: res = 'caught'
        elif r.returncode == 0: res = 'SURVIVED'
        else: res = 'build' if 'error' in out else 'rc %d' % r.returncode
    finally:
        open(p, 'w').write(orig)
    if res != 'build': done += 1
    if res == 'SURVIVED': survivors += 1
    print('%-8s %s %s:%d\n    - %s\n    + %s' % (res, pid, f, n + 1, old.strip(), l.strip()), flush=True)
print('%s: %d mutants, %d survived' % (pid, done, survivors), flush=True)
shutil.rmtree(dst, ignore_errors=True)
