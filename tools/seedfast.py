"""dev: evaluate planted bugs in a scratch copy: seedfast.py id ... | patch files; prints what the property's obligations say"""
import sys, os, json, subprocess, time, importlib, traceback
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
import run as R
D = '/tmp/sf'
G = {}

def sh(c, env=None):
    return subprocess.run(c, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def prep():
    os.makedirs(D, exist_ok=True)
    if not os.path.exists(D + '/t'):
        sh('mkdir -p %s/t; cp -a /verif/.build/mir %s/t/mir' % (D, D))
    sh('rsync -a --delete --exclude target /repo/ %s/repo/ ; rsync -a --delete --exclude target /verif/harness/ %s/harness/; sed -i s,/repo,%s/repo, %s/harness/Cargo.toml' % (D, D, D, D))
    sh('cd %s/repo && git checkout -q -- .' % D)
    if not os.path.exists(D + '/repo'): sh('cp -a /repo %s/repo' % D)

def dump():
    mo = D + '/mir.json'
    if os.path.exists(mo): os.remove(mo)
    e = dict(os.environ, LD_LIBRARY_PATH=R.sysroot() + '/lib', CARGO_TARGET_DIR=D + '/t/mir', VD_CRATE='vharness', VD_OUT=mo, VD_API=mo + '.api', RUSTC_WRAPPER='/verif/.build/driver/release/mirdump',
             RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -C overflow-checks=off -C debug-assertions=off --cfg verif_hooks -Awarnings')
    r = sh('cd %s/harness && touch src/lib.rs && find %s/repo/src %s/repo/crates -name "*.rs" -newermt "-1000 sec" -exec touch {} + ; touch %s/repo/src/lib.rs; cargo +nightly check --offline' % (D, D, D, D), e)
    return mo if os.path.exists(mo) else None, r.stdout

def one(j):
    return R.one(j)

def go(name, patch, prop, all_=False):
    prep()
    r = sh('cd %s/repo && git apply %s' % (D, patch))
    if r.returncode: print(name, 'does not apply', r.stdout[:200]); return
    m, log = dump()
    if not m: print(name, 'NODUMP', log[-800:]); return
    from interp import Prog
    prog = Prog(json.load(open(m)))
    obs = R.obligations(False)
    kinds = R.MEMORY.get(prop)
    if not all_:
        obs = [o for o in obs if o.prop == prop or (kinds and o.tensor and o.light)]
    t = time.time()
    res = R.evaluate(prog, obs, False, kinds if not all_ else None)
    hits = {}; und = {}
    for i, st, why, wit, loc, nreq, fn, sp, kind, dt in res:
        o = obs[i]
        if st == 'VIOLATION':
            if not all_:
                if kinds and o.prop != prop and kind not in kinds: continue
                if not kinds and kind in ('dup', 'own', 'mutate'): continue
            hits.setdefault(o.prop, []).append('%s [%s] %s: %s %s' % (o.root, o.name, kind, why[:200], wit))
        elif st != 'PROVED':
            und.setdefault(o.prop, []).append('%s [%s] %s' % (o.root, o.name, why[-250:]))
    import lints
    if not all_:
        for r in lints.run(prop, False, dict(here='/verif', build='/verif/.build', repo=D + '/repo', mir=prog and json.load(open(m)), api=m + '.api')):
            if r['status'] == 'VIOLATION': hits.setdefault(prop, []).append('lint ' + r['rule'] + ' ' + r['site'] + r['text'][:150])
            elif r['status'] == 'UNDECIDED': und.setdefault(prop, []).append('lint ' + r['rule'] + ' ' + r['site'] + r['text'][:150])
    print('%-22s %s %s viol=%s und=%s %.0fs' % (name, prop, 'CAUGHT' if (hits.get(prop) or (kinds and hits)) else 'MISSED', {k: len(v) for k, v in hits.items()}, {k: len(v) for k, v in und.items()}, time.time() - t))
    for k, v in hits.items(): print('     V', k, v[0][:300])
    if not hits or all_:
        for k, v in und.items():
            for x in v[:3]: print('     U', k, x[:420])
    sys.stdout.flush()

if __name__ == '__main__':
    a = sys.argv[1:]
    all_ = '--all' in a
    for x in a:
        if x.startswith('--'): continue
        if os.path.isdir('/verif/seeded/' + x):
            go(x, '/verif/seeded/%s/patch.diff' % x, json.load(open('/verif/seeded/%s/meta.json' % x))['property'], all_)
        else:
            p, _, prop = x.partition(':')
            go(os.path.basename(p), p, prop or 'ALL', True if not prop else all_)
