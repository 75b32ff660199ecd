#!/usr/bin/env python3
"""Decides one property: python3 check.py <id> [quick|thorough].

Builds the symbolic execution engine, compiles the harness crate together with
/repo's current sources to LLVM IR, executes the property's harness functions
symbolically, lets Z3 decide every branch and assertion, and replays whatever
it finds, and a sample of what it does not object to, against a native build.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, time
import props

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, '.target')
SYMEX = T + '/engine/release/symex'
REPLAY = T + '/harness/release/replay'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
THREADS = str(min(8, os.cpu_count() or 8))


def die(msg):
    """An ending that is neither 'holds' nor 'violated'."""
    print('ERROR', msg, flush=True)
    sys.exit(2)


def cargo(args, cwd, target):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        die('build failed: cargo %s\n%s' % (' '.join(args), p.stderr[-4000:]))


def build_engine():
    cargo(['build', '--release', '--offline', '-q'], V + '/engine', T + '/engine')


def build_ir(features):
    d = T + '/harness/release/deps'
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith('harness') and f.endswith('.bc'):
                os.unlink(os.path.join(d, f))
    lib = V + '/harness/src/lib.rs'
    os.utime(lib)
    cargo(['rustc', '--release', '--offline', '-q', '--features', features, '--lib', '--crate-type', 'staticlib', '--',
           '--emit=llvm-bc'],
          V + '/harness', T + '/harness')
    bcs = [os.path.join(d, f) for f in os.listdir(d) if f.startswith('harness') and f.endswith('.bc')]
    if not bcs:
        die('no bitcode was produced')
    return max(bcs, key=os.path.getmtime)


def build_native(features):
    cargo(['build', '--release', '--offline', '-q', '--features', 'replay,' + features, '--bin', 'replay'], V + '/harness',
          T + '/harness')


def prep(bc, pid, roots):
    out = '%s/%s.bc' % (T, pid)
    p = subprocess.run([SYMEX, 'prep', '--in', bc, '--out', out, '--roots', ','.join(roots)], capture_output=True, text=True)
    if p.returncode != 0:
        die('prep %s: %s' % (pid, p.stderr[-2000:]))
    return out


def run(bc, root, secs, extra):
    out = '%s/%s.json' % (T, root)
    p = subprocess.run([SYMEX, 'run', '--bc', bc, '--root', root, '--time', str(secs), '--threads', THREADS,
                        '--out', out] + extra, capture_output=True, text=True)
    if p.returncode != 0:
        die('run %s: %s' % (root, p.stderr[-2000:]))
    with open(out) as f:
        r = json.load(f)
    return r


def replay(root, data, tries=1, limit=30):
    """(reproduced, observed, text): several tries, for hash seeds differ."""
    text = ''
    for _ in range(tries):
        try:
            p = subprocess.run([REPLAY, root, data], capture_output=True, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            return True, None, 'does not terminate within %d s' % limit
        text = p.stdout + p.stderr[-2000:]
        if p.returncode == 5:
            return None, None, text
        if p.returncode != 0:
            return True, None, text
    last = p.stdout.strip().split('\n')[-1]
    return False, last[len('REPLAY-OK '):].strip() if last.startswith('REPLAY-OK') else None, text


def known():
    """(property, root, label or hex input) -> text"""
    r = {}
    path = V + '/KNOWN_FINDINGS.txt'
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l.split() if '=' in x and x.split('=', 1)[0] in ('property', 'harness', 'input'))
                r[(f['property'], f['harness'], f['input'])] = l.split(' -- ', 1)[-1].strip()
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    os.makedirs(V + '/evidence/replays', exist_ok=True)
    os.makedirs(T, exist_ok=True)
    todo = [h for h in P['harnesses'] if tier == 'thorough' or not h.get('thorough')]
    ex = cf.ThreadPoolExecutor(8)
    fe, fb = ex.submit(build_engine), ex.submit(build_ir, P.get('features', ''))
    fe.result()
    bc = fb.result()
    fn = ex.submit(build_native, P.get('features', ''))
    bc = prep(bc, pid, [h['root'] for h in todo])
    t_build = time.time() - t0
    reports = {}
    for h in todo:
        secs = h.get('secs', 200) if tier == 'quick' else h.get('secs_thorough', 3600)
        extra = ['--sample', str(h.get('sample', 97))]
        if h.get('hash'):
            extra += ['--hash', str(h['hash'])]
        if tier == 'thorough':
            extra += ['--z3-all', '1']
        reports[h['root']] = run(bc, h['root'], secs, extra)
        r = reports[h['root']]
        print('%-28s paths %d steps %d z3 %d (%.1f s) asserts %d wall %.1f s complete %s violations %d' % (
            h['root'], r['paths'], r['steps'], r['z3_queries'], r['z3_seconds'],
            r['asserts_concrete'] + r['asserts_symbolic'], r['wall_s'], r['complete'], len(r['violations'])), flush=True)
    fn.result()
    os.unlink(bc)

    kf = known()
    problems, confirmed, seen_known = [], [], {}
    validated = 0
    with cf.ThreadPoolExecutor(8) as pool:
        for h in todo:
            root, r = h['root'], reports[h['root']]
            # Counterexamples, replayed against the native build.
            tries = 6 if h.get('hash') or h.get('hashy', True) else 1
            vs = r['violations']
            for v, (rep, _, text) in zip(vs, pool.map(lambda v: replay(root, v['bytes'], tries), vs)):
                key = [k for k in ((pid, root, v['bytes']), (pid, root, v['label'].replace(' ', '_'))) if k in kf]
                if rep and key:
                    seen_known[key[0]] = kf[key[0]]
                elif rep:
                    confirmed.append((root, v, text))
                else:
                    problems.append('%s: %s on %s does not reproduce natively (%s)' % (root, v['label'], v['bytes'], text[-300:]))
            # Outcomes of paths without objection, compared with the native build.
            ss = r['samples'][:h.get('samples', 60)]
            for (b, o), (rep, got, text) in zip(ss, pool.map(lambda s: replay(root, s[0]), ss)):
                if rep is not False or got != o:
                    problems.append('%s: path on %s disagrees with the native build: %s / %s %s' % (root, b, o, got, text[-300:]))
                validated += 1
            if r['errors']:
                problems.append('%s: engine: %s' % (root, r['errors'][:3]))
            if not r['complete']:
                problems.append('%s: not exhausted (%d pending paths)' % (root, r['pending']))
            if r['limit']:
                problems.append('%s: %d paths exceed the step or depth bound' % (root, r['limit']))
            if r['recheck_bad']:
                problems.append('%s: %d path conditions refuted on recheck' % (root, r['recheck_bad']))
            for c in h.get('covers', []):
                if not r['covers'].get(c):
                    problems.append('%s: never reached: %s' % (root, c))
            if r['asserts_concrete'] + r['asserts_symbolic'] == 0:
                problems.append('%s: no assertion was reached' % root)

    rs = list(reports.values())
    fns = sorted({f for r in rs for f in r['functions'] if 'json_ld' in f or 'json_syntax' in f})
    total = lambda k: sum(r[k] for r in rs)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the compiled implementation (LLVM IR of the harness linked with '
                           '/repo) over every value of the symbolic inputs within the stated bounds; Z3 decides '
                           'branches and assertions. ' + P['bounds'],
            'evaluations': total('paths'),
            'distinct_nontrivial': sum(r['paths'] - r['killed'] for r in rs),
            'rule': 'A case is a feasible path of a harness: a class of inputs that take the same branches; '
                    'it is non-trivial when it ran to its end or to an assertion.',
            'samples': [{'harness': h['root'], 'input': s[0], 'observed': s[1]} for h in todo
                        for s in reports[h['root']]['samples'][:3]],
            'harnesses': [{k: reports[h['root']][k] for k in (
                'root', 'complete', 'paths', 'killed', 'forks', 'steps', 'sym_bytes_max', 'z3_queries', 'z3_unsat',
                'z3_cached', 'table_decisions', 'z3_seconds', 'rechecks', 'recheck_bad', 'asserts_concrete',
                'asserts_symbolic', 'wall_s', 'covers', 'asserts')} for h in todo],
            'queries': total('z3_queries'), 'solver_seconds': round(total('z3_seconds'), 2),
            'instructions': total('steps'),
            'native_replays_agreeing': validated,
            'exhaustive': all(r['complete'] for r in rs),
            'functions_encoded_count': len(fns),
            'functions_encoded': fns,
            'bounds': P['bounds'], 'build_s': round(t_build, 1),
        },
        'assumptions': props.COMMON_ASSUMPTIONS + P.get('assumptions', []),
        'violations': len(confirmed),
        'wall_s': round(time.time() - t0, 2),
    }
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, t in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if confirmed:
        done = set()
        for n, (root, v, text) in enumerate(confirmed):
            path = '%s/evidence/replays/%s-%d.txt' % (V, pid, n)
            with open(path, 'w') as f:
                f.write('property %s\nharness %s\nlabel %s\nkind %s\ninput %s\n'
                        'rerun: cd /verif/harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=%s/harness cargo run '
                        '--release --offline -q --features replay --bin replay -- %s %s\n\n%s\n\n%s\n' % (
                            pid, root, v['label'], v['kind'], v['bytes'], T, root, v['bytes'], text,
                            '\n'.join(v['stack'])))
            if (root, v['label']) not in done:
                done.add((root, v['label']))
                print('  %s: %s\n%s' % (root, v['label'], '\n'.join('    ' + l[:500] for l in text.split('\n')[:6])))
                print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        sys.exit(1)
    if problems:
        for p in problems[:20]:
            print('  ', p)
        die('%d problems' % len(problems))
    print('HOLDS property=%s within its bounds: %d paths, %d queries, %.1f s' % (
        pid, total('paths'), total('z3_queries'), time.time() - t0))


main()
