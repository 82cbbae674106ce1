#!/usr/bin/env python3
"""Line-level mutants of the files a property names, to find what its check misses.
usage: mutate.py PID COUNT SEED [file ...]   (results appended to /tmp/mutants.txt)"""
import sys, os, re, random, subprocess, shutil, json, time
pid, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:]
if not files:
    for l in open('/verif/properties.jsonl'):
        p = json.loads(l)
        if p['id'] == pid: files = p['anchors']['files'] if 'anchors' in p else p['files']
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(\w)\+1\b', r'\1'), (r' \+ 1\b', ''), (r'-1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif\(!', 'if('), (r'\bif\s*\((?!!)', 'if(!'),
       (r'\+\+', '--'), (r' \+ ', ' - '), (r'\+=', '-='), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\b0\b', '1'), (r'\b1\b', '2')]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|using|return\s*;)|qdb_|std::cerr|std::cout|assert|^\s*(const |static )?[\w:<>,&\* ]+ \w+;\s*$')
def mutants(f):
    out = []
    L = open('/repo/' + f).read().split('\n')
    inb = 0
    for i, l in enumerate(L):
        if SKIP.search(l) or not l.startswith(' '): continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                out.append((f, i, l, code[:m.start()] + re.sub(a, b, code[m.start():m.end()]) + code[m.end():] if '\\1' not in b else code[:m.start()] + re.sub(a, b, code[m.start():m.end()]) + code[m.end():]))
        if re.match(r'^\s+[\w\.\->:]+(\(.*\)| [\+\-]?= .*);\s*$', code) and not re.match(r'^\s+return', code): out.append((f, i, l, re.match(r'\s*', l).group() + ';'))
    return out
ms = sum((mutants(f) for f in files), [])
random.seed(seed); random.shuffle(ms)
w = '/tmp/mw.%s.%d' % (pid, os.getpid())
for f, i, l, n in ms[:count]:
    shutil.rmtree(w, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', w])
    L = open(w + '/' + f).read().split('\n'); assert L[i] == l; L[i] = n; open(w + '/' + f, 'w').write('\n'.join(L))
    t = time.time()
    r = subprocess.run(['python3', 'check.py', pid], cwd='/verif', env=dict(os.environ, QDB_REPO=w, EVIDENCE_DIR='/tmp/mev'), capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
    res = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode)
    with open('/tmp/mutants.txt', 'a') as o: o.write('%s %s %.0fs %s:%d | %s | -> %s | %s\n' % (pid, res, time.time() - t, f, i + 1, l.strip(), n.strip(), (v[0] if v else r.stderr[-150:] if res.startswith('rc') else '')[:120].replace('\n', ' ')))
shutil.rmtree(w, ignore_errors=True)
