#!/usr/bin/env python3
"""Mutation study of the checks (a development aid; no check uses it).
mutate.py FILE[:LO-HI] N [-j JOBS] [-t SECONDS] [-v VARIANT] [-s SEED] [-m c01,c05]
Makes N random one-token changes to FILE, builds each against the combined
workload (mutall.cpp), and prints the mutants that survive SECONDS of it."""
import sys, os, re, random, subprocess, tempfile, shutil, concurrent.futures as cf, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import driver, props
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('n', type=int)
ap.add_argument('-j', type=int, default=6); ap.add_argument('-t', type=int, default=10)
ap.add_argument('-v', default='asan'); ap.add_argument('-s', type=int, default=1); ap.add_argument('-m', default='')
ap.add_argument('-o', default='')
a = ap.parse_args()
fn, _, rng = a.file.partition(':')
lo, hi = (map(int, rng.split('-'))) if rng else (1, 10**9)
path = os.path.join(driver.REPO, fn)
src = open(path).read().split('\n')
SIMDLINE = re.compile(r'_mm|asm|__builtin_prefetch')
def strip(s):
    return re.sub(r'//.*$', '', s)
incomment = False
cand = []
for i, l in enumerate(src):
    if incomment:
        if '*/' in l: incomment = False
        continue
    s = l.strip()
    if s.startswith('/*'):
        if '*/' not in s: incomment = True
        continue
    if not (lo <= i + 1 <= hi) or s.startswith(('#', '//', '*')) or 'assert(' in s or 'printf' in s or '*reason' in s: continue
    c = strip(l)
    for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])', c):
        op = m.group(1)
        if op in '<>' and re.search(r'#include|->', c[max(0, m.start()-1):m.end()]): continue
        for new in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['==']}[op]:
            cand.append((i, m.start(), m.end(), new))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', c):
        v = int(m.group(1)); cand.append((i, m.start(), m.end(), str(v + 1)))
        if v > 0: cand.append((i, m.start(), m.end(), str(v - 1)))
    for m in re.finditer(r' (\+|-) 1\b', c): cand.append((i, m.start(), m.end(), ''))
    for m in re.finditer(r'(&&|\|\|)', c): cand.append((i, m.start(), m.end(), '||' if m.group(1) == '&&' else '&&'))
    for m in re.finditer(r'\breturn (true|false);', c): cand.append((i, m.start(), m.end(), 'return %s;' % ('false' if m.group(1) == 'true' else 'true')))
    for m in re.finditer(r'(?<=[\w)\]]) ([+\-]) (?=[\w(])', c): cand.append((i, m.start(), m.end(), ' - ' if m.group(1) == '+' else ' + '))
    for m in re.finditer(r'(?<=\w)(\+\+|--)', c): cand.append((i, m.start(), m.end(), ''))
    if re.match(r'\s+[\w\->\[\]\.\*]+(\([^;{}]*\)| [+\-|&^]?= [^;{}]*);$', c) and not re.match(r'\s+(return|const|u?int|size_t|bool|static)', c) and not re.match(r'\s+\w+ \*?\w+ =', c):
        m = re.match(r'\s+(.*;)$', c); cand.append((i, m.start(1), m.end(1), ';'))
        cand.append((i, m.start(1), m.end(1), ';'))
    if re.match(r'\s+(\}?\s*else )?if \(.*\) \{$', c):
        m = re.search(r'if \((.*)\) \{$', c); cand.append((i, m.start(1), m.end(1), 'false')); cand.append((i, m.start(1), m.end(1), 'true'))
    m = re.match(r'\s+(break|continue);$', c)
random.seed(a.s)
cand = sorted(set(cand)); random.shuffle(cand); cand = cand[:a.n]; cand.sort()
work = tempfile.mkdtemp(prefix='mut'); 
opts = dict(name='mut', hflags=['-I' + os.path.join(driver.VERIF, 'tools')])
srcs = driver.BASE + props.E32 + props.E64 + props.ALL + props.others('c14') + [os.path.join(driver.VERIF, 'tools', 'mutall.cpp')]
jobs, link, binary = driver.plan_variant(a.v, srcs, opts)
is_hdr = fn.endswith('.h')
is_hh = fn.endswith('.hh')
with cf.ThreadPoolExecutor(8) as ex:
    for e in ex.map(driver.compile_one, jobs):
        if e: print(e); sys.exit(1)
libjobs = [j for j in jobs if j[2].startswith(driver.REPO)]
mine = [j for j in libjobs if j[2] == path]
def one(k):
    i, x, y, new = cand[k]
    d = os.path.join(work, str(k)); os.makedirs(d)
    try:
        t = list(src); t[i] = t[i][:x] + new + t[i][y:]
        sub = {}
        if is_hdr:
            inc = os.path.join(d, 'include'); shutil.copytree(os.path.join(driver.REPO, 'include'), inc)
            open(os.path.join(d, fn), 'w').write('\n'.join(t))
            for j in libjobs:
                cmd = [c.replace('-I' + driver.REPO + '/include', '-I' + inc) for c in j[0]]
                o = os.path.join(d, os.path.basename(j[1]))
                p = driver.sh(cmd + ['-c', j[2], '-o', o])
                if p.returncode: return k, 'nocompile', ''
                sub[j[1]] = o
        elif is_hh:
            inc = os.path.join(d, 'cpp'); shutil.copytree(os.path.join(driver.REPO, 'cpp'), inc)
            open(os.path.join(d, fn), 'w').write('\n'.join(t))
            for j in jobs:
                b = os.path.basename(j[2])
                if not re.search(r'include [<"]roaring(64map)?\.hh', open(j[2]).read()): continue  # every unit: its inline functions are shared
                cmd = [c.replace('-I' + driver.REPO + '/cpp', '-I' + inc) for c in j[0]]
                o = os.path.join(d, b + '.o')
                p = driver.sh(cmd + ['-c', j[2], '-o', o])
                if p.returncode: return k, 'nocompile', ''
                sub[j[1]] = o
        else:
            f = os.path.join(d, os.path.basename(fn)); open(f, 'w').write('\n'.join(t))
            j = mine[0]; o = os.path.join(d, 'm.o')
            p = driver.sh(j[0] + ['-I' + os.path.dirname(path), '-c', f, '-o', o])
            if p.returncode: return k, 'nocompile', ''
            sub[j[1]] = o
        b = os.path.join(d, 'b')
        p = driver.sh([b if z == binary else sub.get(z, z) for z in link])
        if p.returncode: return k, 'nocompile', ''
        env = dict(driver.ENV)
        if a.m: env['MUT_MIX'] = a.m
        try:
            p = subprocess.run([b, '--seed', '1', '--worker', '0', '--workers', '1', '--cases', '100000000', '--time', str(a.t), '--tier', '0', '--budget', '20', '--out', d + '/o', '--status', d + '/s'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=a.t + 60, cwd=d)
            if p.returncode == 0: return k, 'SURVIVED', ''
            return k, 'killed', driver.first_error(p.stdout)[:100]
        except subprocess.TimeoutExpired:
            return k, 'killed', 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)
n = {}
out = open(a.o, 'a') if a.o else sys.stdout
with cf.ThreadPoolExecutor(a.j) as ex:
    for k, st, why in ex.map(one, range(len(cand))):
        n[st] = n.get(st, 0) + 1
        if st == 'SURVIVED':
            i, x, y, new = cand[k]
            print('%s:%d: %s  [%s -> %s]' % (fn, i + 1, src[i].strip(), src[i][x:y], new), file=out, flush=True)
print('# %s: %s' % (a.file, n), file=out, flush=True)
shutil.rmtree(work, ignore_errors=True)
