#!/usr/bin/env python3
"""Decides one property of DUMA by symbolic execution of the real code.

  check.py <property> [--tier quick|thorough] [--job NAME] [--repo DIR] [--keep]

Compiles the working tree of /repo to LLVM IR together with the harness of the property, runs the
symbolic executor on it, replays every counterexample (and a sample of the path witnesses) on the
natively compiled code, and writes evidence/<property>.json.
exit 0: held for every value within the bounds; 1: VIOLATION (reproduced natively); 2: no
verdict (build failure, engine failure, vacuous harness). What a time limit or the solver left undecided,
and a model run that the compiled code does not reproduce, is printed as NOTE and recorded with complete:false."""
import argparse, concurrent.futures, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(HERE, 'build', 'symduma')
sys.path.insert(0, HERE)
import props

SRC_C = ['duma.c', 'print.c', 'sem_inc.c']
DEFS = ['-DDUMA_OLD_NEW_MACRO']
NOB = ['malloc', 'free', 'calloc', 'realloc', 'memcpy', 'memmove', 'memcmp', 'strlen', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strdup',
       'strcmp', 'strncmp', 'memalign', 'posix_memalign', 'valloc', 'strchr', 'printf', 'sprintf', 'puts', 'atoi', 'strtol']
CLANG = ['-O1', '-g', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-w'] + ['-fno-builtin-' + n for n in NOB]
WRAP = ['_exit', 'mmap', 'munmap', 'mprotect', 'write', 'open', 'close', 'pthread_self', 'pthread_mutex_init', 'pthread_mutex_trylock',
        'pthread_mutex_lock', 'pthread_mutex_unlock']
ENV = dict(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C', HOME='/tmp')
JOBS = 8

class Broken(Exception):
    pass

def run(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise Broken('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout

def par(fns):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return [f.result() for f in [ex.submit(g) for g in fns]]

class Build:
    def __init__(self, repo, scratch):
        self.s = scratch
        self.src = os.path.join(scratch, 'tree')
        os.makedirs(os.path.join(self.src, 'src'))
        for f in glob.glob(os.path.join(repo, '*.h')) + glob.glob(os.path.join(repo, 'createconf.c')):
            if os.path.basename(f) not in ('duma_config.h', 'verinfo.h'):
                shutil.copy(f, self.src)
        for f in glob.glob(os.path.join(repo, 'src', '*')):
            if os.path.isfile(f):
                shutil.copy(f, os.path.join(self.src, 'src'))
        with open(os.path.join(self.src, 'verinfo.h'), 'w') as o:
            o.write('#define GIT_SOURCE_VERSION "verification build"\n')
        # the generated configuration header, by the project's own generator
        run(['gcc', '-w', '-o', 'createconf', 'createconf.c'], cwd=self.src)
        run(['./createconf'], cwd=self.src, timeout=60)
        self.inc = ['-I', self.src, '-I', os.path.join(self.src, 'src'), '-I', os.path.join(HERE, 'harness')]

    def bc(self, f, out, extra=()):
        cxx = f.endswith('.cpp')
        run([('clang++' if cxx else 'clang')] + (['-std=gnu++98'] if cxx else []) + CLANG + DEFS + self.inc + list(extra) + ['-emit-llvm', '-c', f, '-o', out])

    def obj(self, f, out, extra=()):
        cxx = f.endswith('.cpp')
        run([('g++' if cxx else 'gcc')] + (['-std=gnu++98'] if cxx else []) + ['-O1', '-g', '-w', '-fno-builtin', '-U_FORTIFY_SOURCE', '-fno-strict-aliasing'] + DEFS + self.inc + list(extra) + ['-c', f, '-o', out])

    def base(self, cpp):
        fs = [os.path.join(self.src, 'src', f) for f in SRC_C] + ([os.path.join(self.src, 'src', 'dumapp.cpp')] if cpp else [])
        todo = []
        for f in fs:
            n = os.path.join(self.s, os.path.basename(f))
            todo.append(lambda f=f, n=n: self.bc(f, n + '.bc'))
            todo.append(lambda f=f, n=n: self.obj(f, n + '.o'))
        todo.append(lambda: self.bc(os.path.join(HERE, 'harness/model_libc.c'), os.path.join(self.s, 'model.bc')))
        todo.append(lambda: self.obj(os.path.join(HERE, 'harness/hrt.c'), os.path.join(self.s, 'hrt.o')))
        par(todo)

    def harness(self, key):
        h, defs, cpp, sched = key
        n = os.path.join(self.s, re.sub(r'\W', '_', h + ''.join(defs) + str(cpp) + sched))
        f = os.path.join(HERE, 'harness', h)
        self.bc(f, n + '.h.bc', defs)
        self.obj(f, n + '.h.o', defs)
        ms = SRC_C + (['dumapp.cpp'] if cpp else [])
        bcs = [os.path.join(self.s, m + '.bc') for m in ms]
        objs = [os.path.join(self.s, m + '.o') for m in ms]
        if sched:
            # scheduling points before accesses to shared memory; the native program is compiled from the same
            # instrumented IR, so that a schedule means the same in both
            for i, m in enumerate(ms):
                b, o = '%s.%s.bc' % (n, m), '%s.%s.o' % (n, m)
                run([ENGINE, '-instrument', sched, bcs[i], b])
                run(['clang', '-O0', '-w', '-fno-builtin', '-c', b, '-o', o])
                bcs[i], objs[i] = b, o
        run(['llvm-link-18', n + '.h.bc', os.path.join(self.s, 'model.bc')] + bcs + ['-o', n + '.bc'])
        run(['g++', '-no-pie', '-o', n + '.exe', n + '.h.o', os.path.join(self.s, 'hrt.o')] + objs +
            ['-Wl,' + ','.join('--wrap=' + w for w in WRAP), '-lpthread'])
        return n

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (30, 50))

def native(exe, replay, scratch, timeout=60):
    """-> (kind, message, ok flags, traces, raw)"""
    env = dict(ENV, H_STAGE='0', H_REPLAY=replay)
    try:
        p = subprocess.run([exe], env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limits)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'').decode(errors='replace')
    ok, tr = {'ABORT': 0, 'SEGV': 0, 'EXIT': 0}, []
    msg, done = '', False
    for l in out.splitlines():
        if l.startswith('OK '):
            _, k, v = l.split()
            ok[k] = int(v)
        elif l.startswith('TRACE '):
            tr.append(l[6:])
        elif l.startswith('ASSERTFAIL '):
            msg = l[11:]
        elif l == 'DONE':
            done = True
    if rc == 77: kind = 'ASSERT'
    elif rc == 96 or rc == 'timeout' or rc == -signal.SIGXCPU: kind = 'DEADLOCK'
    elif rc in (95, 97, 98, 99): kind = 'HARNESS%d' % rc
    elif rc == -signal.SIGILL: kind = 'ABORT'
    elif rc == -signal.SIGABRT: kind = 'ABORT'
    elif rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE): kind = 'SEGV'
    elif rc == 0 and done: kind = 'DONE'
    else: kind = 'EXIT'
    return kind, msg, ok, tr, out

def parse_replay(f):
    r = dict(sym={}, trace=[], expect='', msg='')
    for l in open(f):
        l = l.rstrip('\n')
        k, _, v = l.partition(' ')
        if k == 'sym':
            a, b = v.rsplit(' ', 1)
            r['sym'][a] = int(b)
        elif k == 'trace':
            r['trace'].append(v)
        elif k in ('expect', 'msg'):
            r[k] = v
    return r

def confirmed(rep, nat):
    kind, msg, ok, tr, _ = nat
    e = rep['expect']
    if kind == 'ASSERT':       # the real code breaks an assertion of the harness
        return True
    if e in ('ABORT', 'TERMINATE'):
        return kind == 'ABORT' and not ok['ABORT']
    if e == 'SEGV':
        return kind in ('SEGV', 'DEADLOCK') and not ok['SEGV']
    if e == 'EXIT':
        return kind == 'EXIT' and not ok['EXIT']
    if e == 'DEADLOCK':
        return kind == 'DEADLOCK'
    return kind in ('ABORT', 'SEGV', 'EXIT') and not ok[kind]

def known():
    f = os.path.join(HERE, 'known_findings.txt')
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) job=(\S+) match="([^"]*)" (.*)', l)
            if m:
                r.append(m.groups())
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    P = props.PROPS[a.prop]
    jobs = [j for j in P['jobs'] if (a.tier == 'thorough' or j.get('tier', 'quick') == 'quick') and (not a.job or j['name'] == a.job)]
    scratch = tempfile.mkdtemp(prefix='symduma-')
    rdir = os.path.join(HERE, 'replays', a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 2
    try:
        rc = work(a, P, jobs, scratch, rdir, t0)
    except Broken as e:
        print('ERROR:', e)
    finally:
        if a.keep:
            print('scratch kept:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def work(a, P, jobs, scratch, rdir, t0):
    eng = ENGINE
    srcs = glob.glob(os.path.join(HERE, 'engine', '*'))
    if not os.path.exists(eng) or any(os.path.getmtime(f) > os.path.getmtime(eng) for f in srcs):
        run(['bash', os.path.join(HERE, 'engine', 'build.sh'), os.path.join(HERE, 'build')], timeout=600)
    B = Build(a.repo, scratch)
    B.base(any(j.get('cpp') for j in jobs))
    keyof = lambda j: (j['harness'], tuple(j.get('defs', ())), bool(j.get('cpp')), j.get('sched', ''))
    keys = sorted({keyof(j) for j in jobs})
    bins = dict(zip(keys, par([lambda k=k: B.harness(k) for k in keys])))
    tb = time.time() - t0
    budget = 780 if a.tier == 'quick' else 10000

    def one(j):
        n = bins[keyof(j)]
        js = os.path.join(scratch, j['name'] + '.json')
        t = j.get('time', 200)
        t = min(t, max(10, budget - (time.time() - t0)))
        cmd = [eng, '-json', js, '-replay-dir', rdir, '-name', j['name'], '-time', str(t), '-witness', str(j.get('witness', 6))] + j.get('flags', [])
        pr = dict(j.get('params', {}))
        if a.tier == 'thorough':
            pr.update(j.get('thorough', {}))
        for k, v in pr.items():
            cmd += ['-p', '%s=%d' % (k, v)]
        try:
            p = subprocess.run(cmd + [n + '.bc'], env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 400)
            out = p.stdout.decode(errors='replace')
            code = p.returncode
        except subprocess.TimeoutExpired as e:
            out, code = 'timeout', 'timeout'
        if a.v or code not in (0, 1, 2):
            sys.stderr.write(out[-4000:])
        try:
            r = json.load(open(js))
        except Exception:
            r = None
        if r is None:
            return j, None, 'engine failed (%s): %s' % (code, out[-600:]), [], []
        viol = [(f, parse_replay(f), native(n + '.exe', f, scratch)) for f in r['viol_files']]
        wits = [(f, parse_replay(f), native(n + '.exe', f, scratch)) for f in r['wit_files'] if not r['viol_files']]
        return j, r, '', viol, wits

    res = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, sorted(jobs, key=lambda j: -j.get('time', 200))))
    tot = dict.fromkeys(['paths', 'forks', 'instr', 'asserts', 'assert_queries', 'queries', 'sat', 'unsat', 'unknown'], 0)
    solver = 0.0
    notes = []
    problems, violations, knownhits, samples, fns, outcomes, reached, asserts, boxes = [], [], [], [], {}, {}, {}, {}, []
    validated = skipped = 0
    kf = known()
    for j, r, err, viol, wits in res:
        if r is None:
            problems.append('%s: %s' % (j['name'], err))
            continue
        for k in tot:
            tot[k] += r[k]
        solver += r['solver_s']
        boxes.append(dict(job=j['name'], params=j.get('params', {}), paths=r['paths'], queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2), outcomes=r['outcomes'], bounds=j.get('bounds', '')))
        for d, e in ((fns, 'functions'), (outcomes, 'outcomes'), (reached, 'reached'), (asserts, 'assertions')):
            for k, v in r[e].items():
                d[k] = d.get(k, 0) + v
        for f, rep, nat in viol:
            if confirmed(rep, nat):
                hit = [k for k in kf if k[0] == a.prop and re.fullmatch(k[1], j['name']) and re.search(k[2], rep['msg'])]
                if hit:
                    knownhits.append(hit[0])
                else:
                    violations.append((f, rep, nat, j))
            else:
                notes.append('%s: undecided, counterexample not reproduced on the real code (%s expected %s, native %s %s): %s' % (j['name'], f, rep['expect'], nat[0], nat[1], rep['msg'][:300]))
        if r['violations'] and not r['viol_files']:
            problems.append(j['name'] + ': violations without a replay file')
        if r['inconclusive']:
            notes.append('%s: not explored completely: %s' % (j['name'], '; '.join(r['reasons'][:3])))
        for l in j.get('reach', P.get('reach', [])):
            if not r['reached'].get(l) and not r['violations']:
                (notes if r['inconclusive'] else problems).append('%s: vacuous, label "%s" never reached' % (j['name'], l))
        for f, rep, nat in wits:
            kind = 'ABORT' if rep['expect'] == 'TERMINATE' else rep['expect']
            if nat[0] == 'HARNESS95':
                skipped += 1
            elif nat[0] == kind and nat[3] == rep['trace']:
                validated += 1
                if len(samples) < 6 and (validated % 3 == 1 or len(jobs) < 4):
                    samples.append(dict(job=j['name'], inputs=dict(list(rep['sym'].items())[:12]), observed=rep['trace'][:12], outcome=rep['expect']))
            elif nat[0] == 'ASSERT' or nat[0] in ('SEGV', 'ABORT', 'EXIT') and kind != nat[0] and not nat[2][nat[0]]:
                # the compiled code breaks the property on the inputs of this path although the IR of it does not
                rep['msg'] = 'native run of a path witness: ' + (nat[1] or nat[0])
                violations.append((f, rep, nat, j))
                continue
            else:
                d = [(x, y) for x, y in zip(rep['trace'] + [''] * 9, nat[3] + [''] * 9) if x != y][:2]
                notes.append('%s: undecided, path witness %s behaves differently natively: model %s, native %s %s %s' % (j['name'], f, rep['expect'], nat[0], nat[1], d))
            if not a.keep:
                os.unlink(f)
    for k in sorted(set(knownhits)):
        print('KNOWN-FINDING: property=%s %s' % (k[0], k[3].strip()))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['instr'], traces_validated_against_impl=validated, samples=samples,
                            explanation='states = symbolic paths completed (each stands for all input values satisfying its path condition); transitions = LLVM instructions executed symbolically; every assertion is decided by z3 over all values of the path.',
                            traces_not_replayable_natively=skipped, forks=tot['forks'], assertions_checked=tot['asserts'], assertion_queries=tot['assert_queries'],
                            queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], solver_s=round(solver, 2), build_s=round(tb, 2),
                            functions_encoded=fns, outcomes=outcomes, reached=reached, assertions=asserts, jobs=boxes, bounds=P.get('bounds', ''), known_findings_hit=len(set(knownhits)), complete=not (problems or notes), problems=problems + notes),
              assumptions=props.COMMON + P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not samples:
        ev['coverage']['samples'] = [dict(note='no path witness replayed')]
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
        o.write('\n')
    if a.v:
        for b in boxes:
            print('  ', json.dumps(b))
        print('   reached', reached)
        print('   assertions', asserts)
    for p in problems + notes:
        print('NOTE:', p)
    if violations:
        for f, rep, nat, j in violations[:5]:
            print('counterexample [%s] %s: inputs %s native outcome: %s %s' % (j['name'], rep['msg'][:400], dict(list(rep['sym'].items())[:16]), nat[0], nat[1]))
        print('VIOLATION property=%s replay=%s' % (a.prop, os.path.relpath(violations[0][0], HERE)))
        return 1
    print('%s %s: %d paths, %d assertions, %d queries (%d unsat), solver %.1fs, %d witnesses validated, %.1fs' % (a.prop, a.tier, tot['paths'], tot['asserts'], tot['queries'], tot['unsat'], solver, validated, time.time() - t0))
    return 2 if problems else 0
main()
