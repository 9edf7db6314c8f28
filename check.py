#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current code.

    check.py <property id> [--tier quick|thorough]      decide a property
    check.py --setup                                     build the engine
    check.py --replay <crate> <harness> <hexfile> [tier] run one counterexample natively

Steps: build the engine, compile the harness crates (path dependencies on
/repo) to LLVM IR, execute every harness of the property symbolically (z3
decides every branch and every assertion), replay counterexamples and sampled
paths on an ordinary native build, write evidence.

Exit: 0 held on everything explored, 1 violation (replayed), 2 no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, HARNESS

BUILD = os.path.join(HERE, '.build')
REPO = '/repo'
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
CORES = os.cpu_count() or 8


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(flags, target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            e[k] = os.environ[k]
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin'
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             RUSTFLAGS=flags, CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0')
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build_engine():
    srcs = [os.path.join(HERE, 'engine', f) for f in ('nsx.cpp', 'expr.cpp', 'expr.h', 'ir.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, 'nsx-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = run(['g++', '-O2', '-std=c++17', '-I' + Z3 + '/include', srcs[0], srcs[1], '-o', tmp, '-L' + Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib'])
        if r.returncode:
            raise NoAnswer('engine build failed\n' + r.stdout)
        os.rename(tmp, out)
    return out


def tier_cfg(tier):
    return ' --cfg nsx_thorough' if tier == 'thorough' else ''


# Programs whose own source a harness crate takes in, with the standard
# library's files, pipes, processes and environment replaced by models.
PROGRAMS = {'hscp': 'nora_scp', 'hsshd': 'nora_sshd'}


def generate(crate):
    """The program's current source with `std::` leading to the harness's model and `main` reachable."""
    if crate not in PROGRAMS:
        return
    name = PROGRAMS[crate]
    src, dst = os.path.join(REPO, name, 'src'), os.path.join(BUILD, 'gen', name, 'src')
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            t = open(p, 'rb').read()
            if f.endswith('.rs'):
                t = re.sub(rb'(?<![\w:$])crate::', b'crate::' + crate[1:].encode() + b'::', t)
                t = re.sub(rb'(?<![\w:])(::)?std::', b'crate::mstd::', t)
                t = re.sub(rb'#\[async_std::main\]', b'', t)
                t = re.sub(rb'(?<![\w:])(::)?(async_std|ed25519_dalek|rand)::', rb'crate::mstd::\2::', t)
                t = t.replace(b'#[async_trait::async_trait]', b'#[async_trait::async_trait(?Send)]')
                t = re.sub(rb'^(async )?fn main\(', lambda m: b'pub ' + m.group(0), t, flags=re.M)
            want[os.path.relpath(p, src)] = t
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.unlink(os.path.join(d, f))
    for rel, t in want.items():
        p = os.path.join(dst, rel)
        if not os.path.exists(p) or open(p, 'rb').read() != t:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'wb').write(t)


def roots(crate):
    return ['--root', REPO + '/'] + (['--root', os.path.join(BUILD, 'gen') + '/'] if crate in PROGRAMS else [])


def build_ir(crate, tier):
    generate(crate)
    d = os.path.join(HERE, 'harness', crate)
    t = os.path.join(BUILD, 'ir', tier, crate)
    flags = ('-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir --cfg nsx_engine --cfg nora_verif'
             ' -C link-arg=-Wl,--unresolved-symbols=ignore-all' + tier_cfg(tier))
    r = run(['cargo', 'build', '--release', '--offline', '--locked'], cwd=d, env=env(flags, t))
    if r.returncode:
        raise NoAnswer('IR build of %s failed\n%s' % (crate, r.stdout[-4000:]))
    ll = [f for f in glob.glob(os.path.join(t, 'release/deps', crate + '-*.ll')) if 'rcgu' not in f]
    if not ll:
        raise NoAnswer('no IR for ' + crate)
    return max(ll, key=os.path.getmtime)


def build_native(crate, tier):
    generate(crate)
    d = os.path.join(HERE, 'harness', crate)
    t = os.path.join(BUILD, 'native', tier, crate)
    r = run(['cargo', 'build', '--offline', '--locked'], cwd=d, env=env('--cfg nora_verif' + tier_cfg(tier), t))
    if r.returncode:
        raise NoAnswer('native build of %s failed\n%s' % (crate, r.stdout[-4000:]))
    return os.path.join(t, 'debug', crate)


def run_harness(nsx, ll, name, out, tokens, limit, res, go_on=()):
    h = HARNESS[name]
    cmd = [nsx, '--ll', ll, '--entry', name, '--out', out, '--tokens', tokens, '--time', str(limit), *roots(h['crate']),
           '--samples', '3', '--solver-timeout', '60000', '--max-steps', str(h.get('steps', 200_000_000)), *go_on]
    t0 = time.time()
    p = run(cmd)
    res[name] = dict(rc=p.returncode, log=p.stdout[-2000:], wall=time.time() - t0)


def merge(out):
    tot = dict(paths=0, forks=0, insts=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, assert_queries=0, solver_s=0.0, pruned=0, assumed_away=0)
    covers, viols, samples, funcs, why = {}, [], [], {}, set()
    for f in sorted(glob.glob(out + '.part.*')):
        d = json.load(open(f))
        for k in tot:
            tot[k] += d[k]
        for k, v in d['covers'].items():
            covers[k] = covers.get(k, 0) + v
        viols += d['violations']
        samples += d['samples']
        if d['incomplete']:
            why.add(d['incomplete_why'])
        for k, v in d['functions'].items():
            funcs.setdefault(k, set()).update(v)
    fatal = [open(f).read().strip() for f in glob.glob(out + '.fatal*')]
    return tot, covers, viols, samples, funcs, sorted(why), fatal


def native(binary, harness, hexfile, timeout=60, pre=()):
    try:
        p = subprocess.run(list(pre) + [binary, harness, hexfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def reproduces(binary, v, harness, hexfile):
    """Does the native run fail the way the engine says?"""
    k = v['kind']
    rc, out = native(binary, harness, hexfile)
    if k == 'assert':
        return rc == 78 or rc == 101, rc, out
    if k == 'steps':
        return rc == 'timeout', rc, out
    bad = rc in (78, 101) or (isinstance(rc, int) and rc < 0)
    if not bad and k in ('memory', 'unreachable', 'abort') and shutil.which('valgrind'):
        rc, out = native(binary, harness, hexfile, timeout=300, pre=['valgrind', '-q', '--error-exitcode=99'])
        bad = rc == 99
    return bad, rc, out


def load_known(pid):
    r = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    r.append(d)
    return r


def is_known(known, harness, v):
    for k in known:
        m = k['match']
        if m['harness'] == harness and m['kind'] == v['kind'] and m['msg'] == v['msg']:
            return k
    return None


def main(pid, tier):
    t0 = time.time()
    prop = PROPS[pid]
    # of these only panics and the like count, other assertions belong to other properties
    crash = [n for n in prop.get('crash', []) if n not in prop['harnesses']]
    names = [n for n in prop['harnesses'] + crash if tier == 'thorough' or not HARNESS[n].get('thorough_only')]
    crates = sorted({HARNESS[n]['crate'] for n in names})
    limit = 620 if tier == 'quick' else 3 * 3600
    work = os.path.join(BUILD, 'run', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    nsx = build_engine()
    lls, bins, err = {}, {}, []
    def job(f, c, d):
        try:
            d[c] = f(c, tier)
        except NoAnswer as e:
            err.append(str(e))
    th = [threading.Thread(target=job, args=a) for c in crates for a in ((build_ir, c, lls), (build_native, c, bins))]
    for t in th: t.start()
    for t in th: t.join()
    if err:
        raise NoAnswer('\n'.join(err))
    t_build = time.time() - t0
    tokens = os.path.join(work, 'tokens')
    with open(tokens, 'wb') as f:
        f.write(struct.pack('<ii', CORES, 0) + b'\0' * 4088)
    res = {}
    limit = max(60, limit - t_build)
    known = load_known(pid)
    # look for others behind a known finding on the same path
    go_on = lambda n: ['--go-on'] if any(k['match']['harness'] == n for k in known) else []
    th = [threading.Thread(target=run_harness, args=(nsx, lls[HARNESS[n]['crate']], n, os.path.join(work, n), tokens, limit, res, go_on(n))) for n in names]
    for t in th: t.start()
    for t in th: t.join()

    rdir = os.path.join(HERE, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    problems, violations, knownhits, incomplete = [], [], [], []
    per, allf = {}, {}
    validated = 0
    shown = []
    for n in names:
        binary = bins[HARNESS[n]['crate']]
        tot, covers, viols, samples, funcs, why, fatal = merge(os.path.join(work, n))
        before = len(problems)
        other = [v for v in viols if n in crash and v['kind'] == 'assert']
        viols = [v for v in viols if v not in other]
        for k, v in funcs.items():
            allf.setdefault(k, set()).update(v)
        seen = set()
        for v in viols:
            key = (v['kind'], v['msg'], v['loc'])
            if key in seen:
                continue
            hexf = os.path.join(rdir, '%s-%d.hex' % (n, len(seen)))
            with open(hexf, 'w') as f:
                f.write(v['stream'] + '\n')
            ok, rc, out = reproduces(binary, v, n, hexf)
            if not ok:
                # another witness of the same kind may replay
                problems.append('%s: counterexample (%s %s %s) does not reproduce natively (exit %s)' % (n, v['kind'], v['loc'], v['msg'], rc))
                continue
            seen.add(key)
            with open(hexf[:-4] + '.txt', 'w') as f:
                f.write('property %s, harness %s, kind %s\n%s\n%s\nreplay: python3 %s/check.py --replay %s %s %s %s\n\nnative output:\n%s' % (
                    pid, n, v['kind'], v['msg'], v['loc'], HERE, HARNESS[n]['crate'], n, hexf, tier, out))
            k = is_known(known, n, v)
            (knownhits if k else violations).append(dict(harness=n, kind=v['kind'], msg=v['msg'], loc=v['loc'], replay=hexf, known=k and k['what']))
        for s in samples:
            hexf = os.path.join(work, 'sample.hex')
            with open(hexf, 'w') as f:
                f.write(s['stream'] + '\n')
            rc, out = native(binary, n, hexf)
            m = re.search(r'^NSX-OBS(.*)$', out, re.M)
            got = [int(x) for x in m.group(1).split()] if m else None
            if rc != 0 or got != s['obs'] or 'NSX-STREAM' in out:
                if rc in (75,):
                    continue
                problems.append('%s: sampled path disagrees with the native run: exit %s, native %s, engine %s, stream %s' % (n, rc, got, s['obs'], s['stream'][:400]))
            else:
                validated += 1
                if len(shown) < 6:
                    shown.append(dict(harness=n, input=s['stream'][:160], observed=s['obs'][:8]))
        if fatal:
            problems.append('%s: engine: %s' % (n, '; '.join(sorted(set(fatal)))[:600]))
        elif res[n]['rc'] not in (0,):
            problems.append('%s: engine exit %s %s' % (n, res[n]['rc'], res[n]['log'][-300:]))
        missing = [c for c in HARNESS[n].get('covers', []) if not covers.get(c)]
        if missing and not viols and not other:
            problems.append('%s: vacuous, never reached: %s' % (n, ', '.join(missing)))
        if why and not viols and not other:
            incomplete.append('%s: %s' % (n, ', '.join(why)))
        if n in crash and problems[before:]:
            incomplete += problems[before:]
            del problems[before:]
        per[n] = dict(bounds=HARNESS[n]['bounds_' + tier] if 'bounds_' + tier in HARNESS[n] else HARNESS[n]['bounds'], **{k: (round(x, 2) if isinstance(x, float) else x) for k, x in tot.items()}, covers=covers,
                      complete=not why and not fatal, decides='absence of panics' if n in crash else 'all assertions', wall_s=round(res[n]['wall'], 1))
    shutil.rmtree(work, ignore_errors=True)
    tt = {k: round(sum(p[k] for p in per.values()), 2) for k in ('paths', 'forks', 'insts', 'queries', 'sat', 'unsat', 'unknown', 'asserts', 'assert_queries', 'solver_s', 'pruned', 'assumed_away')}
    repo_f = allf
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 1),
        coverage=dict(
            states=tt['paths'], transitions=tt['insts'], traces_validated_against_impl=validated, samples=shown,
            explanation='states: symbolic paths, each standing for every input that satisfies its path condition; transitions: LLVM instructions executed symbolically; branch feasibility and assertions are decided by z3 (or folded by the term simplifier when already constant).',
            solver=dict(name='z3 (bit-vectors)', queries=tt['queries'], sat=tt['sat'], unsat=tt['unsat'], unknown=tt['unknown'], solver_s=tt['solver_s'],
                        assertions=tt['asserts'], assertions_sent_to_solver=tt['assert_queries']),
            pruned_paths=tt['pruned'], assumed_away=tt['assumed_away'],
            bounds=prop.get('bounds', ''), harnesses=per, complete_within_bounds=not incomplete and not problems, incomplete=incomplete,
            functions_encoded=[dict(function=k, lines=len(v)) for k, v in sorted(repo_f.items())],
            build_s=round(t_build, 1)),
        assumptions=prop.get('assumptions', []),
        violations=[dict(harness=v['harness'], kind=v['kind'], what=v['msg'], at=v['loc'], replay=v['replay']) for v in violations])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d harnesses, %d paths, %d queries (%d unsat), %.1f s solver, %d native replays, %d repo functions, %.1f s' % (
        pid, tier, len(names), tt['paths'], tt['queries'], tt['unsat'], tt['solver_s'], validated, len(repo_f), ev['wall_s']))
    for n in names:
        log('  %-28s paths=%d queries=%d asserts=%d solver=%.1fs wall=%.1fs %s' % (n, per[n]['paths'], per[n]['queries'], per[n]['asserts'], per[n]['solver_s'], per[n]['wall_s'], '' if per[n]['complete'] else 'INCOMPLETE'))
    for i in incomplete:
        log('INCOMPLETE ' + i)
    done = set()
    for k in knownhits:
        if k['known'] not in done:
            done.add(k['known'])
            log('KNOWN-FINDING: property=%s %s' % (pid, k['known']))
    if violations:
        for p in problems:
            log('NOTE ' + p)
        for v in violations:
            log('VIOLATION property=%s replay=%s' % (pid, v['replay']))
            log('  %s: %s %s %s' % (v['harness'], v['kind'], v['msg'], v['loc']))
        return 1
    if problems:
        for p in problems:
            log('NO-ANSWER ' + p)
        return 2
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        if a and a[0] == '--setup':
            log('engine: ' + build_engine())
            sys.exit(0)
        if a and a[0] == '--generate':
            generate(a[1])
            sys.exit(0)
        if a and a[0] == '--replay':
            b = build_native(a[1], a[4] if len(a) > 4 else 'quick')
            rc, out = native(b, a[2], a[3])
            log(out + 'exit %s' % rc)
            sys.exit(0 if rc == 0 else 1)
        tier = os.environ.get('VERIF_TIER') or 'quick'
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        sys.exit(main(a[0], tier))
    except NoAnswer as e:
        log('NO-ANSWER ' + str(e))
        sys.exit(2)
