#!/usr/bin/env python3
"""Decides one property (or sets everything up): ./check.py setup | ./check.py C01 [C02 ...]

Every run rebuilds the harness of the property against /repo's working tree, compiles both together
to LLVM IR, and has the verifier `llvc` discharge every obligation for all inputs.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('Y86_REPO', '/repo')
B = os.path.join(V, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, TRUSTED, NATIVE_ONLY_REPLAY  # noqa

ENV = dict(os.environ, Y86_REPO=REPO, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
ENV.pop('RUSTFLAGS', None)
RUSTFLAGS_LL = ['-C', 'save-temps', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']

def log(*a): print(*a, flush=True)

def run(cmd, env=None, cwd=None, timeout=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b'').decode('utf8', 'replace') + '\n(timeout)', time.time() - t0

def sysroot_bin(n):
    s = subprocess.run(['rustc', '--print', 'sysroot'], stdout=subprocess.PIPE, cwd=V).stdout.decode().strip()
    h = [l.split(': ')[1] for l in subprocess.run(['rustc', '-vV'], stdout=subprocess.PIPE, cwd=V).stdout.decode().split('\n') if l.startswith('host')][0]
    return f'{s}/lib/rustlib/{h}/bin/{n}'

def engine():
    rc, out, _ = run(['cargo', 'build', '--release', '--offline', '--locked'], {'CARGO_TARGET_DIR': f'{B}/engine'}, f'{V}/engine')
    exe = f'{B}/engine/release/llvc'
    if rc != 0 or not os.path.exists(exe): raise RuntimeError('verifier build failed:\n' + out[-2000:])
    return exe

def generate(parts):
    """concatenate the shared specification and the harness parts; returns the file"""
    txt = ''.join(open(f'{V}/harness/spec/{p}.rs').read() for p in ['common'] + parts)
    os.makedirs(f'{B}/gen', exist_ok=True)
    f = f'{B}/gen/{"_".join(parts)}.rs'
    if not os.path.exists(f) or open(f).read() != txt: open(f, 'w').write(txt)
    return f

def with_repo(manifest):
    """path dependency on the tree under test (only rewritten when Y86_REPO is set, for experiments)"""
    if REPO == '/repo': return
    s = open(manifest).read()
    if '"/repo' in s: open(manifest, 'w').write(s.replace('"/repo', f'"{REPO}'))

def build_ir(parts, crate='harness'):
    """compile /repo's working tree together with the harness to one optimised LLVM module"""
    gen = generate(parts)
    d = f'{V}/{crate}'
    with_repo(f'{d}/Cargo.toml')
    tgt = f'{B}/ir-{crate}'
    deps = f'{tgt}/release/deps'
    os.makedirs(tgt, exist_ok=True)
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith('h-'): os.remove(f'{deps}/{f}')
    forget(f'{tgt}/release')
    # linking is expected to fail (the primitives have no body); the module before linking is what we need
    rc, out, t = run(['cargo', 'rustc', '--release', '--offline', '--locked', '--'] + RUSTFLAGS_LL, {'CARGO_TARGET_DIR': tgt, 'Y86_VERIF_RS': gen}, d)
    bc = [f for f in (os.listdir(deps) if os.path.isdir(deps) else []) if re.match(r'h-.*cgu\.0\.rcgu\.bc$', f)]
    errs = re.findall(r'^error(?:\[E\d+\])?: (?!linking|could not compile).*?(?=^\S|\Z)', out, re.M | re.S)
    if not bc or (errs and 'linking with' not in out):
        return None, out, t
    ll = f'{B}/{"_".join(parts)}.ll'
    rc, o2, t2 = run([sysroot_bin('llvm-dis'), f'{deps}/{bc[0]}', '-o', ll])
    for f in os.listdir(deps):
        if f.startswith('h-'): os.remove(f'{deps}/{f}')
    if rc != 0: return None, o2, t
    return ll, out, t + t2

def forget(d):
    """make cargo recompile the crates of the tree under test (never trust time stamps)"""
    d += '/.fingerprint'
    for f in os.listdir(d) if os.path.isdir(d) else []:
        if re.match(r'(h|y86[-_]\w+|sim[-_]macro|binutils|native|bounded)-', f): shutil.rmtree(f'{d}/{f}')

_native = {}
def native(parts, crate=''):
    key = tuple(parts)
    if key in _native: return _native[key]
    gen = generate(parts)
    with_repo(f'{V}/native{crate}/Cargo.toml')
    tgt = f'{B}/native{crate}'
    forget(f'{tgt}/debug')
    rc, out, _ = run(['cargo', 'build', '--offline', '--locked'], {'CARGO_TARGET_DIR': tgt, 'Y86_VERIF_RS': gen}, f'{V}/native{crate}')
    exe = None
    if rc == 0:
        exe = f'{B}/run-{"_".join(parts)}'
        shutil.copy(f'{tgt}/debug/native', exe)
    _native[key] = exe
    return exe

_bounded = []
def bounded():
    if _bounded: return _bounded[0]
    with_repo(f'{V}/bounded/Cargo.toml')
    tgt = f'{B}/bounded'
    forget(f'{tgt}/debug')
    rc, out, _ = run(['cargo', 'build', '--offline', '--locked'], {'CARGO_TARGET_DIR': tgt}, f'{V}/bounded')
    _bounded.append((f'{tgt}/debug/bounded', '') if rc == 0 else (None, out))
    return _bounded[0]

def replay_file(prop, name, text):
    d = f'{B}/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{prop}-{hashlib.sha1((name + text).encode()).hexdigest()[:10]}.txt'
    open(p, 'w').write(text)
    return p

def known(prop):
    """(obligation, location) pairs that the committed known-findings file lists for this property"""
    r = []
    f = f'{V}/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def check(prop):
    t0 = time.time()
    P = PROPS[prop]
    tier = TIER
    res = {'harnesses': {}, 'bounded': [], 'notes': []}
    budget = P.get('budget', 600) if tier == 'quick' else 800
    viol = []      # (replay path, confirmed)
    incomplete = []
    exe = engine()
    ll, out, tb = build_ir(P['parts'], 'harness' + P.get('crate', ''))
    res['build_s'] = round(tb, 1)
    runs = {}
    if ll is None:
        incomplete.append('the harness does not compile against the tree under test')
        res['notes'].append('harness build: ' + ' | '.join(re.findall(r'^error.*', out, re.M)[:5])[:600])
    else:
        def one(h):
            name, opts = h
            js = f'{B}/{prop}-{name}.json'
            if os.path.exists(js): os.remove(js)
            cmd = [exe, ll, name, js, '--time', str(budget), '--seed', str(SEED), '--max-fail', '6'] + opts
            rc, o, t = run(cmd, timeout=budget + 60)
            try: return name, json.load(open(js)), o
            except Exception: return name, None, o
        with ThreadPoolExecutor(P.get('jobs', 4)) as ex:
            for name, j, o in ex.map(one, P['harnesses']):
                runs[name] = j
                if j is None:
                    incomplete.append(f'{name}: the verifier gave no result'); res['notes'].append(o[-400:]); continue
                if j['abort']: incomplete.append(f'{name}: {j["abort"]}'[:300])
                if j['undecided']: incomplete.append(f'{name}: undecided {sorted(set(j["undecided"]))[:5]}')
                if not j['abort'] and not j['failures']:
                    miss = [c for c, n in j['covers'].items() if n == 0] + [c for c in P.get('covers', {}).get(name, []) if c not in j['covers']]
                    if miss: incomplete.append(f'{name}: never reached {miss}')
        # failed obligations: replay the verifier's counterexample on the real code
        nf = []
        for name, j in runs.items():
            seen = set()
            for f in (j or {}).get('failures', []):
                if f['name'] in seen: continue
                seen.add(f['name'])
                nf.append((name, f))
        kn = known(prop)
        todo = []
        for name, f in nf:
            hit = [k for k in kn if k[0] == f'{name}/{f["name"]}']
            if hit: log(f'KNOWN-FINDING: property={prop} {hit[0][1]}')
            else: todo.append((name, f))
        if todo:
            nat = native(P['parts'], P.get('crate', ''))
            if nat is None: res['notes'].append('native harness did not build')
            best = None
            for name, f in todo:
                body = f'# property {prop}, harness {name}\n# failed obligation: {f["name"]} ({f["detail"]})\n# at: {" < ".join(f["stack"][:6])}\n'
                conf = False
                if nat and f['replay'] and prop not in NATIVE_ONLY_REPLAY:
                    tmp = replay_file(prop, 'try', f['replay'])
                    rc, o, _ = run([nat, name, '--replay', tmp], timeout=120)
                    os.remove(tmp)
                    conf = rc == 3
                    body += '# native replay: ' + o.strip().replace('\n', '\n#   ')[-600:] + '\n'
                body += f['replay']
                log(f'  failed obligation [{name}] {f["name"]} {"(replayed on the real code)" if conf else ""}')
                p = replay_file(prop, name + f['name'], body)
                if conf: viol.append((p, True)); break
                best = best or p
            if not viol:
                c = concrete(prop, P, res, 60, nat)
                if c: viol.append((c, True))
                else: viol.append((best, False))
    if not viol and ll:
        # functions out of the verifier's reach: bounded checks on the real code (labelled so, never counted as proved)
        for name, what in P.get('native', []):
            nat, o_ = native(P['parts'], P.get('crate', '')), f'{B}/native-{prop}-{name}.txt'
            if nat is None: res['notes'].append(f'{name}: native harness did not build'); continue
            rc, o, t = run([nat, name, '--random', '1', str(SEED), '300', o_], timeout=400)
            res['bounded'].append({'harness': name, 'bound': what, 'result': o.strip()[-300:], 'seconds': round(t, 1)})
            if rc == 3: viol.append((replay_file(prop, name, f'# property {prop}, harness {name} (bounded)\n# ' + o.strip()[-900:].replace('\n', '\n# ') + '\n' + open(o_).read()), True)); break
    if not viol and incomplete:
        # bounded stand-in (labelled as such): never counted as proved
        for i in incomplete: log('  not decided by proof:', i)
        nat = native(P['parts'], P.get('crate', '')) if ll else None
        c = concrete(prop, P, res, 100, nat)
        if c: viol.append((c, True))
    evidence(prop, P, runs, res, incomplete, len(viol), time.time() - t0)
    for p, conf in viol:
        log(f'VIOLATION property={prop} replay={p}' + ('' if conf else ' no-failing-input-found'))
    if viol: return 1
    tot = sum(o['discharged'] for j in runs.values() if j for o in j['obligations'].values())
    log(f'{prop}: ' + (f'{tot} obligations discharged' if not incomplete else 'bounded stand-in found nothing') + f' ({time.time()-t0:.0f} s)')
    return 0

def concrete(prop, P, res, secs, nat):
    """search for a failing input on the real code: sampled harness runs and differential runs"""
    if nat:
        for name, _ in P['harnesses']:
            if prop in NATIVE_ONLY_REPLAY or name in P.get('no_sample', []): continue
            o_ = f'{B}/sample-{prop}.txt'
            rc, o, t = run([nat, name, '--random', '2000000', str(SEED), str(max(10, secs // 4)), o_], timeout=secs + 60)
            res['bounded'].append({'harness': name, 'result': o.strip()[-200:], 'seconds': round(t, 1)})
            if rc == 3: return replay_file(prop, name, f'# property {prop}, harness {name}, sampled input\n# {o.strip()[-600:]}\n'.replace('\n\n', '\n') + open(o_).read())
    if P.get('bounded'):
        exe, out = bounded()
        if exe is None: res['notes'].append('bounded driver did not build: ' + out[-300:]); return None
        o_ = f'{B}/bounded-{prop}.txt'
        rc, o, t = run([exe, P['bounded'], str(SEED), str(secs), o_], timeout=secs + 120)
        res['bounded'].append({'differential': P['bounded'], 'result': o.strip()[-300:], 'seconds': round(t, 1)})
        if rc == 3: return replay_file(prop, 'bounded', open(o_).read())
    return None

def evidence(prop, P, runs, res, incomplete, nviol, wall):
    os.makedirs(f'{V}/evidence', exist_ok=True)
    ob, imp, fn, solv, by = {}, 0, set(), 0.0, {}
    for name, j in runs.items():
        if not j: continue
        for k, o in j['obligations'].items(): ob[f'{name}: {k}'] = o
        fn |= set(j['functions'])
        solv += j['solver_seconds']
        for k, v in j['by_solver'].items(): by[k] = by.get(k, 0) + v
    fn = sorted(f for f in fn if 'architectures::verif' not in f)
    chk = sum(o['checked'] for o in ob.values())
    dis = sum(o['discharged'] for o in ob.values())
    cov = {
        'obligations': chk, 'discharged': dis,
        'checker_cmd': f'build/engine/release/llvc build/{"_".join(P["parts"])}.ll <harness> out.json   for harness in {[h[0] for h in P["harnesses"]]}',
        'trusted_base': TRUSTED,
        'obligations_by_name': {k: {'checked': o['checked'], 'discharged': o['discharged']} for k, o in ob.items()},
        'memory_safety_side_conditions': {n: j['implicit'] for n, j in runs.items() if j},
        'reachability_covers': {n: j['covers'] for n, j in runs.items() if j},
        'functions_under_contract': fn,
        'queries_by_backend': by, 'solver_seconds': round(solv, 1),
        'symbolic_execution': {n: {k: j[k] for k in ('paths', 'steps', 'forks', 'merges', 'queries', 'hard_queries', 'seconds')} for n, j in runs.items() if j},
        'build_seconds': res.get('build_s'),
    }
    if incomplete: cov['not_proved_on_this_run'] = incomplete
    if res['bounded']: cov['bounded_stand_in'] = res['bounded']
    if res['notes']: cov['notes'] = res['notes']
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': nviol}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)

def setup():
    engine()
    seen = set()
    for p, P in PROPS.items():
        k = P.get('crate', '')
        if k in seen: continue
        seen.add(k)
        ll, out, t = build_ir(P['parts'], 'harness' + k)
        log(f'{p}: {"ok" if ll else "harness build failed"} ({t:.0f} s)')
        if not ll: log(out[-1500:])
        native(P['parts'], k)
    bounded()
    return 0

if __name__ == '__main__':
    os.makedirs(B, exist_ok=True)
    with open(f'{B}/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if sys.argv[1:] == ['setup']: sys.exit(setup())
        rc = 0
        for p in sys.argv[1:]: rc = max(rc, check(p))
        sys.exit(rc)
