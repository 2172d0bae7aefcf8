#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--replay FILE]

Builds the harness against the current tree of /repo, runs its generated cases in
several processes and writes evidence/<property>.json.  Exit 0: held on everything
explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BRIDGES = {'bulletproofs.go.in': 'bulletproofs', 'bbsignatures.go.in': 'crypto/bbsignatures', 'ccs08.go.in': 'ccs08'}
# Properties whose check needs something else than 8 ordinary processes.
SPECIAL = {
    'C31': {'race': True, 'shards': 4, 'procs': 4},
}
DEATHS = ['WARNING: DATA RACE', 'fatal error: concurrent map', 'fatal error: stack overflow', 'goroutine stack exceeds',
          'fatal error: all goroutines are asleep', 'VERIF-DEADLOCK', 'unexpected signal during runtime execution', 'SIGSEGV', 'SIGABRT: abort']


def env_go():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GO111MODULE='on',
             CGO_ENABLED='1', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOSUMDB='off', GONOSUMDB='*')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e.pop('GOROOT', None)
    for k in list(e):
        if k.startswith('RAPID_'):
            del e[k]
    return e


def no_answer(msg):
    print('NO-ANSWER: ' + msg)
    sys.exit(2)


def build(prop, tmp, race):
    """Compiles the harness package of the property in a scratch directory."""
    src = os.path.join(tmp, 'src')
    shutil.copytree(HARNESS, src)
    mod = open(os.path.join(src, 'go.mod')).read().replace('=> /repo', '=> ' + REPO)
    open(os.path.join(src, 'go.mod'), 'w').write(mod)
    overlay = {'Replace': {os.path.join(REPO, d, 'zz_verif_bridge.go'): os.path.join(src, 'overlay', f)
                           for f, d in BRIDGES.items()}}
    with open(os.path.join(tmp, 'overlay.json'), 'w') as f:
        json.dump(overlay, f)
    out = os.path.join(tmp, 'check.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-overlay', os.path.join(tmp, 'overlay.json'), '-o', out]
    if race:
        cmd.append('-race')
    cmd.append('./' + prop.lower())
    r = subprocess.run(cmd, cwd=src, env=env_go(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0 or not os.path.exists(out):
        no_answer('the harness does not build:\n' + r.stdout[-6000:])
    return out


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(line.strip())
    return out


def save_replay(prop, workdir, log, shard, seed, tier, shards):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    test = None
    m = re.findall(r'--- FAIL: (\S+)', log)
    if m:
        test = m[0].split('/')[0]
    fail, buf = None, None
    m = re.search(r'-rapid\.failfile="([^"]+)"', log)
    if m and os.path.exists(os.path.join(workdir, m.group(1))):
        fail = open(os.path.join(workdir, m.group(1))).read()
        t = os.path.normpath(m.group(1)).split(os.sep)
        if len(t) >= 3:
            test = t[-2].split('/')[0] if t[-2] else test
    rec = {'property': prop, 'test': test, 'seed': seed, 'tier': tier, 'shard': shard, 'shards': shards,
           'failfile': fail, 'log': log[-20000:]}
    h = hashlib.sha256(json.dumps([test, fail, log[-3000:]]).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def first_failure(log):
    for pat in (r'\[rapid\] (?:failed|panic) after \d+ tests: (.*)', r'(WARNING: DATA RACE.*)', r'(fatal error: .*)', r'(VERIF-DEADLOCK.*)', r'(panic: .*)',
                r'\[rapid\] (flaky test.*)'):
        m = re.search(pat, log)
        if m:
            return m.group(1)[:400]
    return log[-400:]


def classify(code, log, timed_out):
    """'ok', 'violation' or a reason for no answer."""
    if 'HARNESS-ERROR' in log:
        return 'harness error: ' + log[log.index('HARNESS-ERROR'):][:500]
    if timed_out:
        return 'time limit'
    if code == 0:
        return 'ok'
    if any(d in log for d in DEATHS):
        return 'violation'
    if re.search(r'\[rapid\] only generated \d+ valid tests', log) or 'test timed out after' in log:
        return 'harness error: ' + log[-800:]
    if 'out of memory' in log or 'cannot allocate memory' in log or code in (-9, 137):
        return 'out of memory'
    if '--- FAIL' in log:
        return 'violation'
    if re.search(r'^panic: ', log, re.M):
        return 'violation'  # a goroutine of the code under test died
    return 'unexpected end (status %s): %s' % (code, log[-800:])


def replay(prop, path, tmp):
    rec = json.load(open(path))
    spec = SPECIAL.get(prop, {})
    exe = build(prop, tmp, spec.get('race', False))
    work = os.path.join(tmp, 'w')
    os.makedirs(work)
    args = [exe, '-test.count=1', '-test.timeout=600s', '-test.v']
    if rec.get('test'):
        args.append('-test.run=^%s$' % rec['test'])
    e = env_go()
    e.update(VERIF_SEED=str(rec['seed']), VERIF_TIER=rec['tier'], VERIF_SHARD=str(rec['shard']), VERIF_SHARDS=str(rec['shards']))
    if rec.get('failfile'):
        f = os.path.join(tmp, 'replay.fail')
        open(f, 'w').write(rec['failfile'])
        args += ['-rapid.failfile=' + f, '-rapid.nofailfile']
    r = subprocess.run(args, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout)
    verdict = classify(r.returncode, r.stdout, False)
    if verdict == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if verdict == 'ok' else 2


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if not os.path.isdir(os.path.join(HARNESS, prop.lower())):
        no_answer('unknown property ' + prop)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
    try:
        if '--replay' in sys.argv:
            sys.exit(replay(prop, sys.argv[sys.argv.index('--replay') + 1], tmp))
        sys.exit(run(prop, seed, tier, tmp, t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, seed, tier, tmp, t0):
    spec = SPECIAL.get(prop, {})
    shards = spec.get('shards', 8)
    limit = 560 if tier == 'quick' else 3400  # rapid stops generating well before
    exe = build(prop, tmp, spec.get('race', False))
    running = []
    for i in range(shards):
        work = os.path.join(tmp, 'w%d' % i)
        os.makedirs(work)
        e = env_go()
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), GOMEMLIMIT='2500MiB',
                 VERIF_STATS=os.path.join(work, 'stats.json'), GOTRACEBACK='single', GOMAXPROCS=str(spec.get('procs', 2)),
                 GORACE='halt_on_error=1')
        log = open(os.path.join(work, 'log'), 'w')
        p = subprocess.Popen([exe, '-test.count=1', '-test.timeout=%ds' % limit, '-test.v'], cwd=work, env=e, stdout=log,
                             stderr=subprocess.STDOUT, start_new_session=True)
        running.append([p, work, log, None])
    deadline = time.time() + limit + 60
    found = None
    while found is None and any(r[3] is None for r in running):
        for i, r in enumerate(running):
            if r[3] is None and r[0].poll() is not None:
                r[3] = r[0].returncode
                r[2].close()
                text = open(os.path.join(r[1], 'log'), errors='replace').read()
                verdict = classify(r[3], text, False)
                if verdict == 'violation':
                    found = (i, text)
                    break
        if time.time() > deadline:
            break
        time.sleep(0.05)
    late = []
    for r in running:
        if r[0].poll() is None:
            late.append(r)
            try:
                os.killpg(r[0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            r[0].wait()
    # collect
    ev, tests, labels, skipped, samples, hashes, rule = 0, {}, {}, {}, [], set(), ''
    for r in running:
        f = os.path.join(r[1], 'stats.json')
        if not os.path.exists(f):
            continue
        s = json.load(open(f))
        ev += s['evaluations']
        rule = s['rule']
        for src, dst in ((s['tests'], tests), (s['labels'], labels), (s['skipped'], skipped)):
            for k, v in (src or {}).items():
                dst[k] = dst.get(k, 0) + v
        hashes.update(s['hashes'] or [])
        for x in s['samples'] or []:
            if len(samples) < 24 and sum(1 for y in samples if y.get('test') == x.get('test')) < 4:
                samples.append(x)
    known = known_findings(prop)
    manifest = {c['property']: c for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': manifest.get(prop, {}).get('level', 'exploration'),
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': rule, 'samples': samples,
                     'evaluations_per_test': tests, 'classes': dict(sorted(labels.items())), 'undecided': skipped,
                     'known_findings': known, 'processes': shards},
        'assumptions': ['SHA-256, math/big and encoding/json of the Go toolchain are correct',
                        'crypto/rand.Reader is the only source of randomness of the library'],
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if found:
        path = save_replay(prop, running[found[0]][1], found[1], found[0], seed, tier, shards)
        print('failure: ' + first_failure(found[1]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for r in running:
        text = open(os.path.join(r[1], 'log'), errors='replace').read()
        verdict = classify(r[3], text, r in late)
        if verdict != 'ok':
            no_answer(verdict)
    if ev == 0:
        no_answer('nothing was evaluated')
    for k in known:
        print(k)
    print('held: %s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s' % (prop, tier, seed, ev, len(hashes), time.time() - t0))
    if skipped:
        print('undecided parts: %s' % json.dumps(skipped))
    return 0


if __name__ == '__main__':
    main()
