#!/usr/bin/env python3
"""Self-test of the checks: plants small mechanical mutations, one at a time, in scratch copies of /repo and
runs the checks of the properties anchored in the mutated file. usage: mutate.py OUT WORKERS PER_FILE SEED [FILE...]
Survivors (all checks quiet) are written to OUT for a person to look at. Not used by any registered check."""
import json, os, re, shutil, subprocess, sys, threading, queue, random
out, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
anch = {}
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    for f in p['anchors']['files']: anch.setdefault(f, []).append(p['id'])
files = sys.argv[5:] or sorted(anch)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.sin\(\)', '.cos()'), (r'\.cos\(\)', '.sin()'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bfront_', 'back_'), (r'\bback_', 'front_'), (r'\.abs\(\)', ''), (r'\.rev\(\)', ''), (r' = -', ' = '), (r'\(-', '('), (r'!self', 'self'), (r'if !', 'if '),
       (r'\b0\.\.', '1..'), (r'\.\.=', '..'), (r'\b0\.5\b', '0.6'), (r'\b2\.0?\b', '3.'), (r'\b1\.0?\b(?!e)', '2.'), (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'\bx\b', 'y'), (r'\by\b', 'z'), (r'\.x\b', '.y'), (r'\.z\b', '.x'), (r'\bsin_', 'cos_'), (r'\bheating', 'cooling'), (r'\bbreak;', ''), (r'\bcontinue;', ''), (r'\.is_empty\(\)', '.len() == 1'), (r'\.sqrt\(\)', ''), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'None', 'None /*x*/ .or(None)')]
OPS.pop()
def mutants(f):
    src = open('/repo/' + f).read()
    cut = len(src)
    m = re.search(r'^#\[cfg\(test\)\]', src, re.M)
    if m: cut = m.start()
    lines = src[:cut].split('\n')
    res = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('const N') or 'format!' in s or 'panic!' in s or 'debug_assert' in s or s.startswith('pub fn') or s.startswith('fn ') or s.startswith('impl') or 'eprintln' in s or 'Err(' in s: continue
        code = l.split('//')[0]
        for a, b in OPS:
            for mm in list(re.finditer(a, code))[:2]:
                nl = code[:mm.start()] + b + code[mm.end():]
                if nl.strip() != code.strip(): res.append((i, nl))
        if re.match(r'^[\w\.\[\]\*]+ [-+*/]?= .*;$', s) and not s.startswith('let'): res.append((i, re.match(r'\s*', l).group(0)))
        if re.match(r'^self\.[\w\.]+\(.*\)\??;$', s): res.append((i, re.match(r'\s*', l).group(0)))
    rng = random.Random(f'{seed}{f}')
    rng.shuffle(res)
    # at most two for every line
    seen, pick = {}, []
    for i, nl in res:
        if seen.get(i, 0) < 2: seen[i] = seen.get(i, 0) + 1; pick.append((i, nl))
        if len(pick) >= per: break
    return src, pick
q = queue.Queue()
jobs = []
for f in (files if not (files and files[0].startswith('@')) else []):
    src, ms = mutants(f)
    for i, nl in ms: jobs.append((f, src, i, nl))
# with a file @OLD_OUT: the survivors of an earlier run again, against all the checks of the part of the program they are in
WIDE = {'geometry': 'GR', 'rendering': 'RL', 'weather': 'WL', 'light': 'LU', 'heat': 'HU', 'model': 'MULH', 'derive': 'MU', 'air': 'IU', 'src': 'U', 'calendar': 'CW', 'matrix': 'A', 'polynomial': 'H', 'schedule': 'MU'}
every = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
if files and files[0].startswith('@'):
    jobs = []
    for l in open(files[0][1:]):
        d = json.loads(l)
        if d['res'] not in ('survived', 'odd'): continue
        f = d['file']; src = open('/repo/' + f).read(); lines = src.split('\n')
        at = [i for i, x in enumerate(lines) if x.strip() == d['old']]
        if not at: print('gone', f, d['line']); continue
        i = min(at, key=lambda k: abs(k + 1 - d['line']))
        jobs.append((f, src, i, re.match(r'\s*', lines[i]).group(0) + d['new']))
        a = anch.setdefault(f, [])
        a += [x for c in WIDE.get(f.split('/')[0], '') for x in every if x[0] == c and x not in a and x not in ('M02',)]
random.Random(seed).shuffle(jobs)
for j in jobs: q.put(j)
print(len(jobs), 'mutants', flush=True)
lock = threading.Lock()
stat = {'killed': 0, 'survived': 0, 'invalid': 0, 'odd': 0}
def work(w):
    repo, hv = f'/tmp/mu{w}/repo', f'/tmp/mu{w}/hv'
    os.makedirs(hv, exist_ok=True); os.makedirs(repo, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', repo + '/'], check=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'evidence', root + '/', hv + '/'], check=True)
    for t in subprocess.run(['grep', '-rl', '/repo', hv + '/harness', '--include=Cargo.toml', '--include=*.rs'], capture_output=True, text=True).stdout.split():
        s = open(t).read(); open(t, 'w').write(s.replace('"/repo', f'"{repo}'))
    while True:
        try: f, src, i, nl = q.get_nowait()
        except queue.Empty: return
        lines = src.split('\n'); old = lines[i]; lines[i] = nl
        open(f'{repo}/{f}', 'w').write('\n'.join(lines))
        res = 'survived'; by = ''
        for pid in anch.get(f, []):
            try: r = subprocess.run(['timeout', '-k', '5', '400', 'bash', './check.sh', pid, 'quick'], cwd=hv, capture_output=True, text=True)
            except Exception as e: res = 'odd'; by = str(e); break
            if r.returncode == 1: res = 'killed'; by = pid; break
            if r.returncode == 2: res = 'invalid'; break
            if r.returncode != 0: res = 'odd'; by = f'{pid} rc={r.returncode}'; break
        open(f'{repo}/{f}', 'w').write(src)
        with lock:
            stat[res] += 1
            with open(out, 'a') as o:
                o.write(json.dumps({'res': res, 'by': by, 'file': f, 'line': i + 1, 'old': old.strip(), 'new': nl.strip()}) + '\n')
            n = sum(stat.values())
            if n % 20 == 0: print(n, stat, flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
for w in range(workers): shutil.rmtree(f'/tmp/mu{w}', ignore_errors=True)
