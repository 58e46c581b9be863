#!/usr/bin/env python3
"""Development aid (not a check): mechanical mutants of /repo/src (and python_ai), in scratch copies under /tmp.
Usage: mutate.py OUT.jsonl WORKERS [path-substring ...]
Each mutant is first put through the stable tests; those that pass go through the checks (copy of /verif) until one fires."""
import sys, os, re, json, subprocess, shutil, threading, queue, random
OUT, W = sys.argv[1], int(sys.argv[2]); FILT = sys.argv[3:]
STABLE = None
REPO = '/repo'
RULES = [
 (r' <= ', [' < ']), (r' < ', [' <= ', ' >= ']), (r' >= ', [' > ']), (r' > ', [' >= ', ' <= ']),
 (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
 (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' /= ']), (r' /= ', [' *= ']),
 (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']),
 (r'\b0\.0\b', ['1.0', '1e-9']), (r'\b1\.0\b', ['0.0', '1.001']), (r'\b2\.0\b', ['1.0', '2.001']), (r'\b0\.5\b', ['0.4999']),
 (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['3']),
 (r'\bNoSoln\b', ['Success', 'NoEffect']), (r'\bNoEffect\b', ['NoSoln', 'Success']), (r'CutStatus::Success', ['CutStatus::NoEffect']),
 (r'\.max\(', ['.min(']), (r'\.min\(', ['.max(']), (r'\.abs\(\)', ['']), (r'\.sqrt\(\)', ['']), (r'\.clone\(\)', []),
 (r'(?<=[(\s=])-(?=[\w(])', ['']), (r'(?<=[(\s=])!(?=[\w(])', ['']), (r'\.\.=', ['..']), (r'(?<=[\w)])\.\.(?=[\w(])', ['..=']),
 (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']),
 (r'\bif (?!let)(.+) \{$', ['if true {', 'if false {']),
]
def code_lines(path):
    ls = open(path).read().split('\n')
    out = []
    indoc = False
    for i, l in enumerate(ls):
        if path.endswith('.rs') and l.strip().startswith('#[cfg(test)]') and not path.endswith('lib.rs'):
            break
        if '#[doc = svgbobdoc' in l: indoc = True
        s = l.strip()
        if not indoc and s and not s.startswith(('//', '#', 'use ', '"""', 'pub mod', 'mod ', 'import', 'from ')):
            out.append(i)
        if indoc and s == ')]': indoc = False
    return ls, out
def mutants():
    files = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.rs') and 'test' not in f and not f.startswith('example') and f not in ('main.rs', 'lib.rs', 'logging.rs', 'ell1d.rs', 'conceptual.rs'):
                files.append(os.path.join(d, f))
    for d, _, fs in os.walk(REPO + '/python_ai/ellalgo'):
        files += [os.path.join(d, f) for f in fs if f.endswith('.py') and f != '__init__.py']
    files.sort()
    for p in files:
        rel = os.path.relpath(p, REPO)
        if FILT and not any(x in rel for x in FILT): continue
        ls, idx = code_lines(p)
        if p.endswith('.py'):
            # drop docstrings
            src = '\n'.join(ls); doc = set()
            for m in re.finditer(r'"""(?:.|\n)*?"""', src):
                a = src[:m.start()].count('\n'); b = src[:m.end()].count('\n')
                doc |= set(range(a, b + 1))
            idx = [i for i in idx if i not in doc]
        for i in idx:
            l = ls[i]
            code = l.split(' //')[0]
            seen = set()
            for rx, reps in RULES:
                for m in re.finditer(rx, code):
                    for r in reps:
                        n = code[:m.start()] + r + code[m.end():] + l[len(code):]
                        if n not in seen and n != l:
                            seen.add(n); yield rel, i, l, n
            s = l.strip()
            if s.endswith(';') and not s.startswith(('let ', 'return', 'use ', 'pub ', 'type ', 'const ', '}', ')')) and (re.search(r'[^=!<>]=[^=]|\(', s)):
                yield rel, i, l, re.match(r'\s*', l).group() + '// ' + s
GEO = 'C04 C03 C01 C05 C02 C06 C07 C08 C12 C13'
PRIO = {
 'src/ell_calc.rs': GEO, 'src/ell.rs': GEO, 'ell_stable.rs': 'C05 ' + GEO,
 'cutting_plane.rs': 'C08 C09 C10 C11 C12 C13 C28 C04', 'ldlt_mgr.rs': 'C14 C15', 'lmi0_oracle.rs': 'C15', 'lmi_old': 'C15', 'lmi_oracle.rs': 'C15',
 'lowpass': 'C16', 'profit': 'C17 C18', 'svm': 'C19', 'maxcut': 'C20', 'quasicvx': 'C21', 'arr.rs': 'C22 C01 C23 C24', 'conjugate': 'C23', 'power': 'C24', 'error.rs': 'C28'}
ALL = ['C%02d' % i for i in range(1, 25)] + ['C28']
def order(rel):
    if 'python_ai' in rel: return ['C25', 'C26', 'C27']
    for k, v in PRIO.items():
        if k in rel: return list(dict.fromkeys(v.split()))
    return ALL
lock = threading.Lock()
def sh(cmd, cwd, t=900):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, executable='/bin/bash')
    except subprocess.TimeoutExpired:
        return None
def worker(k, q, done):
    base = f'/tmp/mut/{k}'
    os.makedirs(base, exist_ok=True)
    sh(f'rm -rf {base}/repo {base}/verif && cp -a /repo {base}/repo && mkdir {base}/verif && cd /verif && cp -a harness py check.sh build.sh pycheck.sh known_findings.txt {base}/verif/ && cp -a target {base}/verif/ 2>/dev/null; '
       f'mkdir -p {base}/verif/evidence {base}/verif/replays; sed -i s#/repo#{base}/repo#g {base}/verif/harness/Cargo.toml {base}/verif/*.sh {base}/verif/py/*.py; '
       f'sed s#/repo#{base}/repo#g /opt/vp/env.sh > {base}/env.sh; sed -e s#/repo#{base}/repo#g -e s#/opt/vp/env.sh#{base}/env.sh# /opt/vp/test.sh > {base}/test.sh; rm -f {base}/verif/harness/Cargo.lock.bak', '/')
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json'))['tests'])
    while True:
        try: rel, i, l, n = q.get_nowait()
        except queue.Empty: return
        p = f'{base}/repo/{rel}'
        orig = open(p).read(); ls = orig.split('\n'); assert ls[i] == l, (rel, i)
        ls[i] = n; open(p, 'w').write('\n'.join(ls))
        rec = dict(file=rel, line=i + 1, old=l.strip(), new=n.strip())
        try:
            if rel.endswith('.rs'):
                r = sh('. ../env.sh; timeout 60 cargo test --lib --tests --offline -- --test-threads 4 2>&1; echo RC=$?', base + '/repo', 200)
            else:
                r = sh('. ../env.sh; cd python_ai; timeout 120 $PY -m pytest -x -q -p no:cacheprovider; echo RC=$?', base + '/repo', 200)
            o = '' if r is None else r.stdout.decode(errors='replace')
            if r is None or 'RC=0' not in o:
                rec['res'] = 'nocompile' if 'could not compile' in o else 'killed-by-tests'
            else:
                ok = True
                if rel.endswith('.rs'):
                    r = sh(f'timeout 300 bash ../test.sh {base}/out.json', base + '/repo', 400)
                    try:
                        out = json.load(open(base + '/out.json'))
                        passed = set(out.get('passed', []))
                        ok = stable <= passed
                    except Exception as e: ok = False
                if not ok: rec['res'] = 'killed-by-tests'
                else:
                    rec['res'] = 'SURVIVED'
                    for c in order(rel):
                        r = sh(f'VERIF_BOOST=2 VERIF_SEED=1 timeout 600 ./check.sh {c}', base + '/verif', 700)
                        if r is None or r.returncode not in (0, 1):
                            rec.setdefault('noverdict', []).append(c)
                            if r is not None and b'does not build' in r.stdout: rec['res'] = 'nobuild'; break
                        elif r.returncode == 1:
                            rec['res'] = 'caught'; rec['by'] = c; break
        finally:
            open(p, 'w').write(orig)
        with lock:
            open(OUT, 'a').write(json.dumps(rec) + '\n')
q = queue.Queue()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['line'], d['new']))
ms = [m for m in mutants() if (m[0], m[1] + 1, m[3].strip()) not in done]
random.Random(7).shuffle(ms)
print(len(ms), 'mutants', flush=True)
if W == 0: sys.exit()
for m in ms: q.put(m)
ts = [threading.Thread(target=worker, args=(k, q, done)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
