#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on the current tree of /repo.

Builds the harness of the property from /repo's working tree, explores its whole bounded space (8 processes), replays
every violation alone before reporting it, and writes evidence/ID.json.
Exit 0: held on everything explored (but for the listed known findings). Exit 1: VIOLATION line.
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from props import PROPS

SHARDS = os.cpu_count() or 8
SAN = {
    'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:quarantine_size_mb=8',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'LC_ALL': 'C.UTF-8', 'TERM': 'xterm',
}


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def build(harness):
    """Build from the sources as they are now; the directory is named after their content."""
    src = [f for d in ('src', 'include') for f in glob.glob(f'{REPO}/{d}/*') if os.path.isfile(f)]
    mine = glob.glob(f'{VERIF}/harness/*')
    root = os.environ.get('VERIF_BUILD', f'{VERIF}/build')
    out = f'{root}/{digest(src + mine)}'
    os.makedirs(out, exist_ok=True)
    # keep the disk clean: only the last few trees
    old = sorted((d for d in glob.glob(f'{root}/*') if os.path.isdir(d) and d != out), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    import fcntl
    with open(f'{out}/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for attempt in (1, 2):
            r = subprocess.run(['make', '-s', f'-j{SHARDS}', '-f', f'{VERIF}/harness/build.mk', f'REPO={REPO}', f'OUT={out}', f'{out}/{harness}'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return f'{out}/{harness}', out
    print(r.stdout[-4000:])
    sys.exit(f'{harness}: build failed')


def known_findings():
    res = []
    with open(f'{VERIF}/known_findings.txt') as f:
        for line in f:
            if line.startswith('finding:'):
                # finding: property=ID case=HEX what fails
                parts = line.split(None, 3)
                res.append((parts[1].split('=', 1)[1], parts[2].split('=', 1)[1], parts[3].strip()))
    return res


def main():
    ident = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    p = PROPS[ident]
    start = time.time()
    binary, out = build(p['harness'])
    work = f'{out}/run_{ident}_{os.getpid()}'
    os.makedirs(work)
    scratch = f'/tmp/verif_{os.getpid()}'
    os.makedirs(scratch, mode=0o755, exist_ok=True)
    env = dict(os.environ, **SAN, VERIF_TMP=scratch)
    for v in ('COLUMNS', 'LINES', 'ESCDELAY', 'TERMINFO', 'LANG'):
        env.pop(v, None)
    hang = str(p.get('hang', 30))
    try:
        procs = []
        for i in range(SHARDS):
            err = open(f'{work}/{i}.err', 'w')
            procs.append(subprocess.Popen([binary, '--prop', ident, '--tier', tier, '--shard', f'{i}/{SHARDS}', '--out', work, '--hang', hang],
                                          env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=work))
        failed = [q.wait() for q in procs]
        stats = {}
        for f in glob.glob(f'{work}/*.stats'):
            for k, v in json.load(open(f)).items():
                stats[k] = stats.get(k, 0) + v
        if any(failed) or len(glob.glob(f'{work}/*.stats')) != SHARDS:
            for f in glob.glob(f'{work}/*.err'):
                print(open(f).read()[-2000:])
            sys.exit(f'{ident}: the explorer failed: {failed}')
        outcomes = 0
        bitmap = None
        for f in glob.glob(f'{work}/*.outcomes'):
            b = int.from_bytes(open(f, 'rb').read(), 'little')
            bitmap = b if bitmap is None else bitmap | b
        outcomes = bin(bitmap or 0).count('1')
        samples = []
        for f in sorted(glob.glob(f'{work}/*.samples')):
            samples += [l.rstrip('\n')[:300] for l in open(f, errors='replace')]
        found = []
        for f in sorted(glob.glob(f'{work}/*.vio')):
            for l in open(f, errors='replace'):
                case, key, msg = l.rstrip('\n').split('\t', 2)
                found.append((len(case), case, key, msg))
        found.sort()

        # Replay alone, twice, with a longer limit: only what fails every time is a violation
        confirmed, unstable = [], []

        def fails(case):
            for _ in range(2):
                r = subprocess.run([binary, '--prop', ident, '--tier', tier, '--out', work, '--hang', str(2 * float(hang)), '--replay', case],
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, stdin=subprocess.DEVNULL)
                if r.returncode != 3:
                    return False, ''
            return True, r.stdout.decode(errors='replace')
        # (some only wait, so a few at a time)
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for (n, case, key, msg), (ok, log) in zip(found[:12], pool.map(lambda f: fails(f[1]), found[:12])):
                (confirmed if ok else unstable).append((case, key, msg, log))
        known = [k for k in known_findings() if k[0] == ident]
        reported = [c for c in confirmed if not any(k[1] == c[0] for k in known)]
        for k in known:
            print(f'KNOWN-FINDING: property={ident} {k[2]}')
        for c in unstable:
            print(f'{ident}: not reproduced when replayed, ignored: {c[1]} {c[2][:300]}')
        replay = None
        if reported:
            os.makedirs(f'{VERIF}/evidence', exist_ok=True)
            replay = f'{VERIF}/evidence/{ident}.replay.txt'
            with open(replay, 'w') as f:
                f.write(f'# python3 {VERIF}/check.py --replay {ident} <case>\n')
                for case, key, msg, log in reported:
                    f.write(f'case={case}\nkey={key}\n{msg}\n{log[-6000:]}\n\n')
            for case, key, msg, log in reported[:3]:
                print(f'{ident}: {key}: {msg[:600]}')
                if key == 'crash':
                    print(log[:2500])
        complete = stats['units_done'] == stats['units'] and not reported
        # When every case is one execution, the states are the distinct final states which were observed
        if p.get('states') == 'observed':
            stats['states'] = outcomes
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        cov = {
            'states': stats['states'], 'transitions': stats['transitions'], 'traces_validated_against_impl': stats['execs'],
            **({} if p.get('states') == 'observed' else {'distinct_outcomes_observed': outcomes}), 'subtrees_explored': stats['units_done'], 'subtrees': stats['units'],
            'samples': samples[:12], 'exhaustive': bool(complete),
            'space': p['space'], 'bounds': p['bounds'].get(tier, ''), 'what_is_counted': p['counts'],
        }
        ev = {'property': ident, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': p.get('assumptions', []),
              'wall_s': round(time.time() - start, 2), 'violations': len(reported)}
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{ident}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print(f'{ident} {tier}: {stats["execs"]} executions, {stats["states"]} states, {stats["transitions"]} transitions, {outcomes} distinct outcomes, '
              f'{stats["units_done"]}/{stats["units"]} subtrees, {time.time() - start:.1f} s')
        if reported:
            print(f'VIOLATION property={ident} replay={replay}')
            sys.exit(1)
        if not complete:
            sys.exit(f'{ident}: the exploration is not complete')
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(ident, case):
    binary, out = build(PROPS[ident]['harness'])
    env = dict(os.environ, **SAN)
    sys.exit(subprocess.run([binary, '--prop', ident, '--out', out, '--replay', case], env=env, cwd=out).returncode)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay(sys.argv[2], sys.argv[3])
    main()
