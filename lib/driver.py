import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
HARN = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 8

ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,function,pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    # name: (cc, cxx, common flags, defines)
    'asan':        ('clang', 'clang++', ['-O1', '-g1'] + ASAN, []),
    'asan-avx2':   ('clang', 'clang++', ['-O1', '-g1'] + ASAN, ['-DCROARING_COMPILER_SUPPORTS_AVX512=0']),
    'asan-scalar': ('clang', 'clang++', ['-O1', '-g1'] + ASAN, ['-DROARING_DISABLE_X64=1']),
    'rel':         ('gcc', 'g++', ['-O3', '-g1', '-DNDEBUG'], []),
    'rel-avx2':    ('gcc', 'g++', ['-O3', '-g1', '-DNDEBUG'], ['-DCROARING_COMPILER_SUPPORTS_AVX512=0']),
    'rel-scalar':  ('gcc', 'g++', ['-O3', '-g1', '-DNDEBUG'], ['-DROARING_DISABLE_X64=1']),
    'rel-noatomic': ('gcc', 'g++', ['-O2', '-g1', '-DNDEBUG'], ['-DCROARING_ATOMIC_IMPL=1']),
    'rel-cxx':     ('g++', 'g++', ['-O2', '-g1', '-DNDEBUG'], []),          # the C sources compiled as C++
    'rel-noavx':   ('gcc', 'g++', ['-O3', '-g1', '-DNDEBUG'], ['-DROARING_DISABLE_AVX=1']),
    'rel-native':  ('gcc', 'g++', ['-O3', '-g1', '-DNDEBUG', '-march=native'], []),
    'clang':       ('clang', 'clang++', ['-O2', '-g1'], []),
    'o0':          ('gcc', 'g++', ['-O0', '-g1'], []),
    'tsan':        ('clang', 'clang++', ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'], []),
    'tsan-scalar': ('clang', 'clang++', ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'], ['-DROARING_DISABLE_X64=1']),
    'amalg':       ('gcc', 'g++', ['-O2', '-g1', '-DNDEBUG'], []),          # the single file amalgamation.sh makes of the sources
    'memcheck':    ('gcc', 'g++', ['-O2', '-g1', '-DNDEBUG'], ['-DCROARING_COMPILER_SUPPORTS_AVX512=0']),  # run under valgrind, which knows nothing of AVX-512
}
FAST = {'model.cpp', 'gen.cpp', 'spec.cpp', 'read32.cpp', 'hooks.cpp'}  # never instrumented
BASE = ['runtime.cpp', 'hooks.cpp', 'model.cpp', 'gen.cpp', 'spec.cpp', 'read32.cpp']

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'exitcode=98:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=24:detect_stack_use_after_return=0:hard_rss_limit_mb=5000:allow_user_segv_handler=0:handle_abort=1:strict_string_checks=0:malloc_context_size=12'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98:halt_on_error=1'
ENV['TSAN_OPTIONS'] = 'exitcode=98:halt_on_error=1:report_thread_leaks=0:second_deadlock_stack=1'


def argv(binary):
    # memcheck builds use the C allocator (--nohooks), which valgrind tracks
    if '-memcheck-' not in os.path.basename(binary):
        return [binary]
    return ['valgrind', '-q', '--error-exitcode=98', '--exit-on-first-error=yes', '--leak-check=no', '--show-realloc-size-zero=no',
            '--max-stackframe=100000000', '--suppressions=' + os.path.join(HARN, 'valgrind.supp'), binary]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_hdr_hash = None


def header_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        files = []
        for root in (os.path.join(REPO, 'include'), os.path.join(REPO, 'cpp')):
            for d, _, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs]
        files += glob.glob(os.path.join(REPO, 'src', '**', '*.h'), recursive=True)
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def harness_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(HARN, '*.hpp'))):
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def tsan_hash():
    return hashlib.sha256(open(os.path.join(HARN, 'tsan_atomic.h'), 'rb').read()).hexdigest()


OPTIONAL = {'amalg': None}  # builds that are left out, and why, where the sources do not support them


def amalgamation():
    """directory with roaring.c and roaring.h as amalgamation.sh makes them of the current tree"""
    script = os.path.join(REPO, 'amalgamation.sh')
    h = hashlib.sha256(header_hash().encode())
    for f in [script] + lib_sources():
        if os.path.exists(f):
            h.update(f.encode() + open(f, 'rb').read())
    d = os.path.join(BUILD, 'amalg-' + h.hexdigest()[:24])
    if not os.path.exists(d):
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh(['bash', script, tmp], cwd=REPO)
        # time stamps would make every object file a new one
        for f in ('roaring.c', 'roaring.h'):
            p = os.path.join(tmp, f)
            t = open(p, errors='surrogateescape').read() if os.path.exists(p) else '#error %s was not made\n' % f
            open(p, 'w', errors='surrogateescape').write(''.join(l for l in t.splitlines(True) if not l.startswith('// Created by amalgamation.sh')))
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')) + glob.glob(os.path.join(REPO, 'src', '*', '*.c')))
    if not s:
        raise CheckError('no library sources found')
    return s


def compile_one(job):
    cmd, out, src = job[:3]
    if os.path.exists(out):
        return None
    tmp = out + '.tmp%d' % os.getpid()
    p = sh(cmd + ['-c', src, '-o', tmp])
    if p.returncode:
        return '%s\n%s' % (' '.join(cmd), p.stdout[-4000:])
    if len(job) > 3 and job[3]:  # the library's own references to these functions go to the harness
        p = sh(['objcopy'] + [a for n in job[3] for a in ('--redefine-sym', '%s=libdirect_%s' % (n, n))] + [tmp])
        if p.returncode:
            return 'objcopy: ' + p.stdout[-2000:]
    os.replace(tmp, out)
    return None


def obj(cmd, src, extra=''):
    h = hashlib.sha256()
    h.update(' '.join(cmd).encode())
    h.update(open(src, 'rb').read())
    h.update(header_hash().encode())
    h.update(extra.encode())
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    return os.path.join(BUILD, 'obj', os.path.basename(src) + '-' + h.hexdigest()[:24] + '.o')


def plan_variant(var, srcs, opts):
    """returns (jobs, link command, binary)"""
    cc, cxx, flags, defs = VARIANTS[var]
    inc = ['-I' + os.path.join(REPO, 'include')]
    lib_std = ['-std=c++17', '-x', 'c++'] if cc == 'g++' else ['-std=c11', '-D_POSIX_C_SOURCE=200809L', '-D_XOPEN_SOURCE=700']
    jobs, objs = [], []
    lsrc, linc = lib_sources(), inc
    if var == 'amalg':
        lsrc, linc = [os.path.join(amalgamation(), 'roaring.c')], ['-I' + amalgamation()]
    for s in lsrc:
        cmd = [cc] + lib_std + flags + defs + linc + ['-w'] + opts.get('libflags', [])
        if var.startswith('tsan'):
            cmd += ['-include', os.path.join(HARN, 'tsan_atomic.h')]
        o = obj(cmd, s, tsan_hash() if var.startswith('tsan') else '')
        if opts.get('redefine'):
            o = o[:-2] + '.redef.o'
        jobs.append((cmd, o, s, opts.get('redefine')))
        objs.append(o)
    hh = harness_hash()
    for s in srcs:
        # (file, tag): another check's cases, under names of their own
        tag = []
        if isinstance(s, tuple):
            s, t = s
            tag = ['-D%s=%s_%s' % (n, n, t) for n in ('run_case', 'PROP', 'RULE', 'harness_init')]
        fast = s in FAST
        f = ['-O2', '-g1'] if fast else list(flags)
        if fast and var.startswith('tsan'):
            f = ['-O2', '-g1']
        if opts.get('harness_flags'):  # the harness itself is built the same way for every build of the library
            f, hcxx = opts['harness_flags'], 'g++'
        else:
            hcxx = cxx
        cmd = [hcxx, '-std=c++17'] + f + defs + inc + ['-I' + os.path.join(REPO, 'cpp'), '-I' + HARN, '-w'] + opts.get('hflags', []) + tag
        p = os.path.join(HARN, s)
        o = obj(cmd, p, hh)
        jobs.append((cmd, o, p))
        objs.append(o)
    key = hashlib.sha256((' '.join(objs) + ' '.join(opts.get('ldflags', []))).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    binary = os.path.join(BUILD, 'bin', '%s-%s-%s' % (opts['name'], var, key))
    link = ['g++' if opts.get('harness_flags') else cxx] + [f for f in flags] + objs + ['-o', binary, '-lpthread', '-lm'] + opts.get('ldflags', [])
    return jobs, link, binary


def build(prop, spec, variants):
    opts = dict(spec.get('opts', {}))
    opts['name'] = prop
    srcs = BASE + spec['srcs']
    jobs, links, bins = {}, [], {}
    for v in variants:
        j, l, b = plan_variant(v, srcs, opts)
        if v in OPTIONAL:
            err = next((e for e in map(compile_one, [x for x in j if not x[2].startswith(HARN)]) if e), None)
            if err:
                OPTIONAL[v] = next((l for l in err.splitlines() if 'error:' in l), 'does not compile')
                continue
        for x in j:
            jobs[x[1]] = x
        if not os.path.exists(b):
            links.append((l, b))
        bins[v] = b
    # big files first
    order = sorted(jobs.values(), key=lambda x: -os.path.getsize(x[2]))
    # harness TUs are heavy: put them first
    order.sort(key=lambda x: 0 if x[2].startswith(HARN) and os.path.basename(x[2]) not in FAST else 1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for err in ex.map(compile_one, order):
            if err:
                raise CheckError('compilation failed:\n' + err)
        def link(x):
            l, b = x
            tmp = b + '.tmp%d' % os.getpid()
            l = [tmp if a == b else a for a in l]
            p = sh(l)
            if p.returncode:
                return p.stdout[-4000:]
            os.replace(tmp, b)
        for err in ex.map(link, links):
            if err:
                raise CheckError('link failed:\n' + err)
    return bins


def tail(path, n=6000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - n))
            return f.read().decode('utf8', 'replace')
    except OSError:
        return ''


def head(path, n=6000):
    try:
        with open(path, 'rb') as f:
            return f.read(n).decode('utf8', 'replace')
    except OSError:
        return ''


def first_error(text):
    for pat in (r'^FAIL .*$', r'^.*ERROR: AddressSanitizer.*$', r'^.*runtime error:.*$', r'^.*WARNING: ThreadSanitizer.*$', r'^==\d+== (?:Conditional|Use of|Invalid|Syscall param|Mismatched|Source and dest|Argument).*$', r'^.*Assertion.*failed.*$', r'^HANG.*$', r'^terminate called.*$'):
        m = re.search(pat, text, re.M)
        if m:
            return m.group(0).strip()[:600]
    return text.strip()[-300:]


class Run:
    pass


def start_worker(binary, args, outdir, tag):
    r = Run()
    r.tag = tag
    r.out = os.path.join(outdir, tag + '.json')
    r.err = os.path.join(outdir, tag + '.err')
    r.status = os.path.join(outdir, tag + '.status')
    for p in (r.out, r.status):
        if os.path.exists(p):
            os.unlink(p)
    r.cmd = argv(binary) + args + ['--out', r.out, '--status', r.status]
    r.binary = binary
    r.f = open(r.err, 'wb')
    r.p = subprocess.Popen(r.cmd, stdout=r.f, stderr=r.f, env=ENV, cwd=outdir)
    return r


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) site=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def known_args(prop):
    k = load_known(prop)
    return ['--known', ','.join(k)] if k else []


def status_case(path):
    try:
        d = open(path, 'rb').read(8)
        if len(d) == 8:
            c = struct.unpack('<Q', d)[0]
            return c - 1 if c else None
    except OSError:
        pass
    return None


MEMORY = r'hard rss limit exhausted|failed to allocate|out of memory'
INTERNAL_RC = (3, -9, -15)


def classify(rc):
    if rc == 0:
        return 'ok'
    if rc in INTERNAL_RC:
        return 'internal'
    if rc == 97:
        return 'hang'
    return 'violation'


def run_property(prop, spec, tier, seed):
    t0 = time.time()
    variants = spec['plan'] if tier == 'quick' else spec.get('plan_thorough', spec['plan'])
    bins = build(prop, spec, sorted(set(v[0] for v in variants)))
    tbuild = time.time() - t0
    outdir = os.path.join(BUILD, 'run-' + prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    ncase = spec['cases'] * (1 if tier == 'quick' else spec.get('thorough_factor', 40))
    tmax = spec.get('time', 240) if tier == 'quick' else spec.get('time_thorough', 3000)
    runs = []
    W = len(variants)
    for w, (var, mult) in enumerate(variants):
        args = ['--seed', str(seed), '--worker', str(w), '--workers', str(W), '--cases', str(int(ncase * mult)), '--time', str(tmax), '--tier', '1' if tier == 'thorough' else '0'] + spec.get('args', []) + known_args(prop)
        if var == 'memcheck' or var in spec.get('nohooks', []):
            args.append('--nohooks')
        if var == 'memcheck':
            args += ['--budget', '400']
        r = start_worker(bins[var], args, outdir, 'w%02d-%s' % (w, var))
        r.var = var
        r.args = args
        runs.append(r)
    failures, errors, notes = [], [], []
    pending = list(runs)
    deadline = time.time() + tmax + 120
    while pending:
        for r in list(pending):
            rc = r.p.poll()
            if rc is None:
                if time.time() > deadline:
                    r.p.kill()
                    r.p.wait()
                    notes.append('worker %s exceeded its wall-clock allowance and was stopped (inconclusive)' % r.tag)
                    r.rc = 0
                    pending.remove(r)
                continue
            pending.remove(r)
            r.f.close()
            r.rc = rc
            c = classify(rc)
            if c == 'internal':
                errors.append('%s: rc=%s %s' % (r.tag, rc, tail(r.err, 800)))
            elif c in ('violation', 'hang'):
                if c == 'violation' and re.search(MEMORY, head(r.err) + tail(r.err)):
                    c = 'memory'
                failures.append((r, c))
                case = status_case(r.status)
                if c != 'violation' and case is not None and getattr(r, 'restarts', 0) < 2:
                    # the remaining cases of this worker
                    n = start_worker(r.binary, r.args + ['--from', str(case + 1)], outdir, '%s-%d' % (r.tag, case))
                    n.var, n.args, n.restarts = r.var, r.args, getattr(r, 'restarts', 0) + 1
                    runs.append(n)
                    pending.append(n)
        decided = [f for f in failures if f[1] == 'violation']
        if decided or errors:
            # a violation decides; stop the rest
            if decided:
                for r in pending:
                    r.p.kill()
                    r.p.wait()
                pending = []
        time.sleep(0.05)
    # hangs: confirm alone with a larger budget
    confirmed = []
    for r, c in failures:
        case = status_case(r.status)
        text = head(r.err) + '\n' + tail(r.err)
        if r.rc < 0:
            text += '\nFAIL worker killed by signal %d (%s)\n' % (-r.rc, signal.Signals(-r.rc).name)
        if c == 'memory':  # a memory limit of the harness says nothing about the property
            notes.append('case %s exhausted the memory limit of the harness (inconclusive)' % case)
            continue
        if c == 'hang':
            a = ['--seed', str(seed), '--case', str(case), '--budget', '150'] + spec.get('args', []) + known_args(prop) + (['--nohooks'] if '--nohooks' in r.args else [])
            try:
                p = subprocess.run(argv(r.binary) + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=outdir, timeout=600)
                if p.returncode == 0:
                    notes.append('case %s exhausted its CPU budget once but finished when repeated alone (inconclusive)' % case)
                    continue
            except subprocess.TimeoutExpired:
                notes.append('case %s: hang re-run inconclusive' % case)
                continue
        confirmed.append((r, c, case, text))
    if errors and not confirmed:
        raise CheckError('\n'.join(errors))
    return dict(runs=runs, failures=confirmed, notes=notes, tbuild=tbuild, outdir=outdir, bins=bins)


def merge(runs):
    tot = dict(cases=0, evals=0, checks=0, ops=0)
    cov, sigs, samples, rule, tmo = {}, set(), [], '', False
    pervar = {}
    for r in runs:
        try:
            d = json.load(open(r.out))
        except Exception:
            continue
        for k in tot:
            tot[k] += d[k]
        for k, v in d['cov'].items():
            cov[k] = cov.get(k, 0) + v
        samples += d['samples']
        rule = d['rule'] or rule
        tmo |= d['timed_out']
        pervar.setdefault(r.var, dict(cases=0, evaluations=0, seconds=0.0))
        pervar[r.var]['cases'] += d['cases']
        pervar[r.var]['evaluations'] += d['evals']
        pervar[r.var]['seconds'] = round(pervar[r.var]['seconds'] + d['secs'], 1)
        b = open(r.out + '.sigs', 'rb').read()
        sigs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    return tot, cov, sigs, samples, rule, tmo, pervar


def report_violation(prop, seed, tier, r, case, text, spec):
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    rel = 'replay/%s-%s-%s-%s.json' % (prop, seed, r.var, case)
    msg = first_error(text)
    trace = ''
    if case is not None:
        a = ['--seed', str(seed), '--case', str(case), '--trace', '--tier', '1' if tier == 'thorough' else '0'] + spec.get('args', []) + known_args(prop) + (['--nohooks'] if '--nohooks' in r.args else [])
        try:
            p = subprocess.run(argv(r.binary) + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=BUILD, timeout=200)
            trace = p.stdout.decode('utf8', 'replace')
            trace = trace[:100000] + ('\n...\n' + trace[-100000:] if len(trace) > 200000 else trace[100000:])
        except subprocess.TimeoutExpired:
            trace = '(trace timed out)'
    with open(os.path.join(VERIF, rel), 'w') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, variant=r.var, case=case, nohooks='--nohooks' in r.args, message=msg, report=text[:12000], trace=trace), f, indent=1)
    print('  what: ' + msg)
    print('VIOLATION property=%s replay=%s' % (prop, rel))


def write_evidence(prop, tier, seed, spec, cov, t0, violations, assumptions=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov, assumptions=assumptions or spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


def check(prop, tier, seed):
    from props import SPECS
    spec = SPECS[prop]
    t0 = time.time()
    if 'custom' in spec:
        return spec['custom'](prop, spec, tier, seed)
    res = run_property(prop, spec, tier, seed)
    tot, cov, sigs, samples, rule, tmo, pervar = merge(res['runs'])
    nviol = 0
    for site, what in load_known(prop).items():
        if cov.get('known-finding/' + site):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for r, c, case, text in res['failures']:
        nviol += 1
        if nviol <= 3:
            report_violation(prop, seed, tier, r, case, text, spec)
    coverage = dict(evaluations=tot['evals'], distinct_nontrivial=len(sigs), rule=rule, samples=samples[:4] or ['(none)'],
                    histories=tot['cases'], operations=tot['ops'], oracle_comparisons=tot['checks'],
                    builds=pervar, observed=dict(sorted(cov.items())), build_s=round(res['tbuild'], 1))
    if res['notes'] or tmo:
        coverage['inconclusive'] = res['notes'] + (['case budget cut short by the time cap'] if tmo else [])
    write_evidence(prop, tier, seed, spec, coverage, t0, nviol)
    if nviol:
        return 1
    # the families of calls the harness is meant to make, with how many different ones at least
    missing = [k for k, n in spec.get('must_cover', {}).items() if sum(1 for c in cov if c.split('/')[0] == k) < n]
    if tot['evals'] < spec.get('min_evals', 1000) or missing:
        raise CheckError('observed too little: %d evaluations, missing %s' % (tot['evals'], missing))
    print('%s: held on %d evaluations (%d distinct non-trivial) in %d histories, %d operations; %.0f s (build %.0f s)' % (prop, tot['evals'], len(sigs), tot['cases'], tot['ops'], time.time() - t0, res['tbuild']))
    return 0


# ---- agreement of builds (C17) -------------------------------------------------
def digests(path):
    d = {}
    try:
        for l in open(path):
            a = l.split()
            if len(a) == 2:
                d[int(a[0])] = a[1]
    except OSError:
        pass
    return d


def compare_builds(prop, spec, tier, seed):
    t0 = time.time()
    plan = spec['plan']  # (variant, cases taken: one in n, fill byte)
    bins = build(prop, spec, [v for v, _, _ in plan])
    plan = [p for p in plan if p[0] in bins]
    tbuild = time.time() - t0
    outdir = os.path.join(BUILD, 'run-' + prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    ncase = spec['cases'] * (1 if tier == 'quick' else spec.get('thorough_factor', 40))
    tmax = spec.get('time', 300) if tier == 'quick' else spec.get('time_thorough', 3000)

    def one(job):
        var, every, fill, w, W = job
        tag = 'w%02d-%s' % (w, var)
        dig = os.path.join(outdir, tag + '.dig')
        frm, crashes, outs = 0, {}, []
        for attempt in range(6):
            left = tmax - (time.time() - t0 - tbuild)
            r = start_worker(bins[var], ['--seed', str(seed), '--worker', str(w), '--workers', str(W), '--cases', str(ncase), '--from', str(frm), '--time', str(max(1, left)), '--fill', str(fill), '--digests', dig, '--tier', '1' if tier == 'thorough' else '0'], outdir, '%s-%d' % (tag, attempt))
            r.var = var
            try:
                r.rc = r.p.wait(timeout=max(30, left + 100))
            except subprocess.TimeoutExpired:
                r.p.kill()
                r.p.wait()
                r.rc = 0
            r.f.close()
            outs.append(r)
            c = classify(r.rc)
            if c == 'internal':
                return var, {}, outs, tail(r.err, 800)
            if c == 'ok':
                break
            case = status_case(r.status)
            if case is None:
                break
            # a run that cannot finish is an outcome like any other: it must be the same everywhere
            crashes[case] = 'hang' if c == 'hang' else 'crash'
            frm = case + 1
        d = digests(dig)
        d.update(crashes)
        return var, d, outs, None

    W = spec.get('workers', 8)
    jobs = [(v, every, fill, w, W) for w in range(W) for v, every, fill in plan if w % every == 0]
    jobs.sort(key=lambda j: j[0] != 'o0')
    got, runs, errors = {}, [], []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for var, d, outs, err in ex.map(one, jobs):
            got.setdefault(var, {}).update(d)
            runs += outs
            if err:
                errors.append(err)
    if errors:
        raise CheckError('\n'.join(errors))
    ref = plan[0][0]
    compared, bad, both_died = 0, {}, 0
    for c in sorted(got[ref]):
        for v in got:
            if v != ref and c in got[v]:
                if 'hang' in (got[v][c], got[ref][c]):
                    both_died += 1  # CPU budgets depend on the machine: inconclusive
                    continue
                compared += 1
                if got[v][c] in ('crash',) and got[v][c] == got[ref][c]:
                    both_died += 1
                if got[v][c] != got[ref][c]:
                    bad.setdefault(c, []).append(v)
    refruns = [r for r in runs if r.var == ref]
    tot, cov, sigs, samples, rule, tmo, _ = merge(refruns)
    nviol = 0
    for c in sorted(bad)[:2]:
        v = bad[c][0]
        diff = trace_difference(bins, spec, ref, v, seed, c, tier)
        if diff is None:
            raise CheckError('case %d: digests of %s and %s differed once and agreed when repeated' % (c, ref, v))
        nviol += 1
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rel = 'replay/%s-%s-%s.json' % (prop, seed, c)
        with open(os.path.join(VERIF, rel), 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=c, variants=[ref, v], also=bad[c], difference=diff), f, indent=1)
        print('  what: case %d takes another course in %s than in %s: %s' % (c, ', '.join(bad[c]), ref, diff['summary'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rel))
    coverage = dict(evaluations=tot['evals'], distinct_nontrivial=len(sigs), rule=rule, samples=samples[:4] or ['(none)'], histories=tot['cases'], operations=tot['ops'],
                    digest_comparisons=compared, builds={v: len(d) for v, d in got.items()}, observed=dict(sorted(cov.items())), build_s=round(tbuild, 1))
    for v, why in OPTIONAL.items():
        if why:
            coverage['left out: ' + v] = why[:300]
            print('%s: build "%s" left out: %s' % (prop, v, why[:300]))
    if tmo or both_died:
        coverage['inconclusive'] = (['cut short by the time cap'] if tmo else []) + (['%d cases hung or died in both builds' % both_died] if both_died else [])
    write_evidence(prop, tier, seed, spec, coverage, t0, nviol)
    if nviol:
        return 1
    if tot['evals'] < 1000 or compared < 500:
        raise CheckError('observed too little: %d evaluations, %d comparisons' % (tot['evals'], compared))
    print('%s: %d digests of %d histories agree across %d builds (%d operations and queries, %d distinct); %.0f s (build %.0f s)' % (prop, compared, tot['cases'], len(got), tot['evals'], len(sigs), time.time() - t0, tbuild))
    return 0


def trace_difference(bins, spec, ref, v, seed, case, tier):
    fills = {a: f for a, _, f in spec['plan']}
    out, dig = {}, {}
    for x in (ref, v):
        df = os.path.join(BUILD, 'replay-%s.dig' % x)
        if os.path.exists(df):
            os.unlink(df)
        p = subprocess.run([bins[x], '--seed', str(seed), '--case', str(case), '--trace', '--budget', '150', '--fill', str(fills[x]), '--digests', df, '--tier', '1' if tier == 'thorough' else '0'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=BUILD, timeout=400)
        out[x] = p.stdout.decode('utf8', 'replace').splitlines()
        dig[x] = digests(df).get(case, 'exit %d' % p.returncode)
    if dig[ref] == dig[v]:
        return None
    n = 0
    while n < min(len(out[ref]), len(out[v])) and out[ref][n] == out[v][n]:
        n += 1
    ctx = [l for l in out[ref][max(0, n - 40):n] if not l.startswith('  digest')][-6:]
    return dict(digests=dig, first_difference_at_line=n, before=out[ref][max(0, n - 60):n], in_ref=out[ref][n:n + 20], in_other=out[v][n:n + 20], summary=' | '.join(x.strip() for x in ctx))


def replay_compare(d):
    from props import SPECS
    spec = SPECS[d['property']]
    ref, v = d['variants']
    bins = build(d['property'], spec, [ref, v])
    diff = trace_difference(bins, spec, ref, v, d['seed'], d['case'], d['tier'])
    if diff is None:
        print('builds agree')
        return 0
    print(json.dumps(diff, indent=1)[:6000])
    print('VIOLATION property=%s replay=case-%s' % (d['property'], d['case']))
    return 1


def replay(path):
    from props import SPECS
    d = json.load(open(path))
    prop = d['property']
    spec = SPECS[prop]
    if 'custom_replay' in spec:
        return spec['custom_replay'](d)
    bins = build(prop, spec, [d['variant']])
    a = ['--seed', str(d['seed']), '--case', str(d['case']), '--trace', '--tier', '1' if d['tier'] == 'thorough' else '0'] + spec.get('args', []) + known_args(prop) + (['--nohooks'] if d.get('nohooks') else [])
    p = subprocess.run(argv(bins[d['variant']]) + a, env=ENV)
    print('exit code', p.returncode)
    if p.returncode:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def main(argv):
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    try:
        if argv and argv[0] == '--replay':
            return replay(argv[1])
        if argv and argv[0] == '--thorough':
            tier = 'thorough'
            argv = argv[1:]
        rc = 0
        for p in argv:
            rc = max(rc, check(p, tier, seed))
        return rc
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        return 2
