#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]   decide one property
   check.py --setup                                        check the toolchain, prebuild what does not depend on /repo
   check.py --replay <replay file>                          run one recorded failing scenario again
Builds the harnesses of the property from /repo's working tree, runs them in parallel,
merges what they covered into evidence/<property>.json."""
import sys, os, json, subprocess, hashlib, time, shutil, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('AWL_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
import props as P

CXX = 'g++'
COMMON = ['-std=gnu++20', '-O1', '-g1', '-pthread', '-DAWL_INT_128', '-DDEBUG',
          '-I' + REPO, '-I' + REPO + '/Platforms/Posix', '-I' + HERE + '/lib', '-fno-omit-frame-pointer', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']

def tree_hash():
    h = hashlib.sha256()
    for top in [REPO + '/Awl', REPO + '/Extras', REPO + '/Platforms', REPO + '/Main', HERE + '/lib', HERE + '/harness']:
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fd:
                    h.update(fd.read())
    for f in ['props.py', 'check.py']:
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:20]

def build(h, th):
    """h: harness description; returns path of the executable"""
    flags = list(h.get('flags', []))
    std = h.get('std')
    common = [f for f in COMMON if not (std and f.startswith('-std='))]
    if std: common.append('-std=' + std)
    if 'opt' in h: common = [h['opt'] if f == '-O1' else f for f in common]
    san = [] if h.get('nosan') else (h['san'] if 'san' in h else SAN)
    srcs = [os.path.join(HERE, 'harness', s) for s in h['src']] + [s.replace('{repo}', REPO) for s in h.get('repo_src', [])]
    extra = [os.path.join(HERE, 'lib', s) for s in h.get('lib_src', [])]
    flags = [f.replace('{repo}', REPO).replace('{here}', HERE) for f in flags]
    key = hashlib.sha256(json.dumps([th, srcs, flags, san, common, h.get('mc', 0), extra, h.get('link', [])]).encode()).hexdigest()[:16]
    outdir = os.path.join(BUILD, key)
    exe = os.path.join(outdir, 'h')
    if os.path.exists(exe):
        return exe
    os.makedirs(outdir, exist_ok=True)
    work = outdir + '/b%d' % os.getpid()   # two checks may build the same harness at the same time
    os.makedirs(work, exist_ok=True)
    objs = []
    cmds = []
    for i, s in enumerate(srcs):
        o = os.path.join(work, 'o%d.o' % i)
        # concurrency harnesses: the compiler reports every memory access and atomic operation to lib/sched.cpp
        inst = (['-fsanitize=thread'] if h.get('mc') else san)
        cmds.append([CXX] + common + inst + flags + ['-c', s, '-o', o])
        objs.append(o)
    for i, s in enumerate(extra):
        o = os.path.join(work, 'l%d.o' % i)
        cmds.append([CXX] + [f for f in common if not f.startswith('-std=')] + ['-std=gnu++20'] + ([] if h.get('mc') else san) + flags + ['-c', s, '-o', o])
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmds))
    for c, r in zip(cmds, rs):
        if r.returncode:
            raise RuntimeError('build failed: %s\n%s' % (' '.join(c), r.stdout[-6000:]))
    link = [CXX, '-pthread'] + ([] if h.get('mc') else san) + objs + ['-o', work + '/h'] + h.get('link', [])
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('link failed: %s\n%s' % (' '.join(link), r.stdout[-6000:]))
    os.rename(work + '/h', exe)
    for o in objs: os.unlink(o)
    os.rmdir(work)
    return exe

def known_findings(prop):
    """lines of known_findings.txt: 'KNOWN property=<id> key=<key> <text>' or 'fixed: ...' (suppresses nothing)"""
    r = {}
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r

def run_one(job):
    exe, args, outf, timeout, env, cwd = job
    t0 = time.time()
    try:
        r = subprocess.run([exe] + args + ['--out', outf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        rc, out, err = r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        rc, out, err = 'timeout', '', (e.stderr or b'').decode('utf8', 'replace')
    res = None
    if os.path.exists(outf):
        try: res = json.load(open(outf))
        except Exception: res = None
    return rc, out, err, res, time.time() - t0

def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        for t in [CXX, 'python3']:
            if not shutil.which(t):
                print('missing', t); return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('setup ok')
        return 0
    replay = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    if args and args[0] == '--replay':
        rp = json.load(open(args[1]))
        prop, tier = rp['property'], rp['tier']
        replay = rp
        only = rp.get('scenario') or only
    else:
        prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = P.PROPS[prop]
    known = known_findings(prop)
    t0 = time.time()
    th = tree_hash()
    hs = [h for h in spec['harnesses'] if tier in h.get('tiers', ('quick', 'thorough'))]
    try:
        with ThreadPoolExecutor(8) as ex:
            exes = list(ex.map(lambda h: build(h, th), hs))
    except RuntimeError as e:
        print(e)
        return 2
    tb = time.time() - t0
    jobs = []
    outd = os.path.join(BUILD, 'out-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
    env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    budget = spec.get('budget', {}).get(tier, 500 if tier == 'quick' else 3000)
    for hi, (h, exe) in enumerate(zip(hs, exes)):
        shards = h.get('shards', 1)
        if isinstance(shards, dict): shards = shards[tier]
        for s in range(shards):
            a = ['--tier', tier, '--seed', str(seed), '--shard', '%d/%d' % (s, shards), '--budget', str(budget)]
            for k in known: a += ['--known', k]
            if only: a += ['--only', only]
            a += h.get('args', [])
            sd = os.path.join(outd, 'cwd-%d-%d' % (hi, s))
            os.makedirs(sd)
            jobs.append((exe, a, os.path.join(outd, '%d-%d.json' % (hi, s)), budget + 240, env, sd))
    # address-space layout must not influence an exploration: results never depend on addresses
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(run_one, jobs))
    counts, samples, scen, capped, hit, outcomes = {}, [], [], [], {}, 0
    viol = []
    errors = []
    for (rc, out, err, res, dt), job in zip(results, jobs):
        if res:
            for k, v in res['counts'].items():
                counts[k] = max(counts.get(k, 0), v) if k.startswith('max_') else counts.get(k, 0) + v
            samples += res['samples']
            for s in res['scenarios']:
                if s not in scen: scen.append(s)
            capped += res['capped']
            hit.update(res['known'])
            outcomes += res['outcomes']
        if rc == 0 and res and 'violation' not in res:
            continue
        if rc == 'timeout':
            errors.append('harness timed out: %s\n%s' % (' '.join(job[1]), err[-2000:]))
            continue
        v = dict(res['violation']) if res and 'violation' in res else {'scenario': '', 'what': 'harness died with status %s' % rc, 'trace': ''}
        if v['what'].startswith('internal:'):
            errors.append('harness error: ' + v['what'])
            continue
        v['stderr'] = err[-6000:]
        v['args'] = job[1]
        viol.append(v)
    shutil.rmtree(outd, ignore_errors=True)
    level = spec['level']
    cov = {}
    c = dict(counts)
    if level == 'model_checking':
        cov['states'] = c.pop('states', 0)
        cov['transitions'] = c.pop('transitions', 0)
        ex = c.pop('executions', 0)
        cov['traces_validated_against_impl'] = cov['transitions'] if spec.get('bfs') else ex
        cov['counting'] = ('states: distinct canonical states; transitions: operations applied, each at the end of its own history on a fresh real object and compared with the model; these histories are the validated traces'
            if spec.get('bfs') else
            'states: nodes of the tree of choices (scheduling decisions, operations, faults, inputs), each counted when first visited, and canonical states of embedded searches; transitions: steps taken by the real code between choices; traces: complete executions of the real code')
    else:
        cov['evaluations'] = c.pop('executions', 0)
        cov['distinct_nontrivial'] = c.pop('nontrivial', outcomes)
        cov['rule'] = spec['rule']
    cov.update(c)
    cov['distinct_outcomes'] = outcomes
    cov['bounds'] = spec.get('bounds', '')
    cov['scenarios'] = scen[:200]
    cov['samples'] = samples[:12] or ['(none)']
    cov['caps_hit'] = sorted(set(capped))[:60]
    # complete within the stated bounds unless a time budget cut a scenario short
    cov['exhaustive'] = not any('time budget' in s for s in capped)
    cov['build_s'] = round(tb, 1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k in hit:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[k], k))
    if viol:
        v = viol[0]
        rd = os.path.join(BUILD, 'replays')
        os.makedirs(rd, exist_ok=True)
        fn = os.path.join(rd, '%s-%d.json' % (prop, int(time.time())))
        json.dump({'property': prop, 'tier': tier, **v}, open(fn, 'w'), indent=1)
        print('scenario:', v['scenario'])
        print('what:', v['what'])
        print(v['trace'][-3000:])
        if 'sanitizer' in v['what'] or 'died' in v['what'] or 'abort' in v['what']: print(v['stderr'][-3000:])
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        return 1
    if errors:
        print('\n'.join(errors))
        return 2
    tot = {k: v for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)}
    print('HELD property=%s tier=%s %s build=%.1fs wall=%.1fs' % (prop, tier, tot, tb, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
