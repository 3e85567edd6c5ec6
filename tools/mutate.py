"""dev: mutation testing of the checks.
  mutate.py base                    record which functions every obligation visits (on /repo)
  mutate.py gen OUT [pathsubstr]    list mutants (json lines)
  mutate.py run IN OUT [workers]    for each mutant: tests, then the obligations that visit the changed function
All work happens in copies under /tmp/mut.
"""
import sys, os, re, json, time, subprocess, importlib, shutil, glob, traceback, random
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(20000)
ROOT = '/tmp/mut'
BASE = '/verif/.build/mutbase.json'

def obls():
    from spec import Verdict
    mods = json.load(open('/verif/engine/modules.json'))
    return [o for m in mods for o in importlib.import_module('obl_' + m).obls(False)]

def _base1(i):
    from spec import run_ob
    o = G['obs'][i]
    try:
        v = run_ob(G['p'], o, 10)
        return i, v.status, sorted(v.fns)
    except Exception:
        return i, 'CRASH', []
G = {}

def base():
    from interp import Prog
    from multiprocessing import get_context
    d = json.load(open('/verif/.build/mir.json'))
    G['p'] = Prog(d); G['obs'] = obls()
    out = {}
    with get_context('fork').Pool(8) as p:
        for i, s, f in p.imap_unordered(_base1, range(len(G['obs'])), chunksize=4):
            o = G['obs'][i]; out[o.root + ' ' + o.name] = [s, f]
    lines = {}
    for f in d['fns']:
        if not f.get('span','').startswith('/repo'): continue
        for sp in [f['span']] + [b[2] for b in f.get('blocks', [])]:
            lines.setdefault(sp, set()).add(f['path'])
    starts = {}
    for f in d['fns']:
        if f.get('span','').startswith('/repo'):
            fl, ln = f['span'].rsplit(':', 1); starts.setdefault(fl, []).append((int(ln), f['path']))
    json.dump(dict(ob=out, lines={k: sorted(v) for k, v in lines.items()}, starts=starts), open(BASE, 'w'))
    print(len(out))

OPS = [
    (r' \+ ', [' - ', ' * ']), (r' - ', [' + ']), (r' \* ', [' + ', ' / ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ', ' <= ', ' >= ']), (r' != ', [' == ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' += ']),
    (r'\b0\.\.', ['1..']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\.\.=', ['..']),
    (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\.floor\(\)', ['.ceil()', '.round()']), (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bSome\(([^()]*)\)', ['None']),
    (r'\.rev\(\)', ['']), (r'\.skip\(1\)', ['']), (r'\bn_inner\b', ['n_outer']), (r'\bn_outer\b', ['n_inner']),
    (r'\ba\b', ['b']), (r'\bb\b', ['a']), (r'\brows\(\)', ['cols()']), (r'\bcols\(\)', ['rows()']), (r'\b_ref\b', ['']),
    (r'\.offset\b', ['.size']), (r'\bself\.offset\b', ['0']), (r'\bi\b', ['j', '0']), (r'\bj\b', ['i', '0']), (r'\bk\b', ['j', 'i']), (r'\brank\(\)', ['size()']),
    (r'\bsize\b', ['len', 'rank']), (r'\blen\b', ['size']), (r'\.cloned\(\)', ['.rev().cloned()']), (r'\.as_slice\(\)', ['.as_slice()[1..]']), (r'\bx\b', ['y']), (r'\by\b', ['x']),
    (r'\bm\b', ['n']), (r'\bn\b', ['m']), (r'dim\((\w+)\)', [r'rdim(\1)']), (r'rdim\((\w+)\)', [r'dim(\1)']),
]

def gen(sub, out):
    r = []
    for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True) + glob.glob('/repo/crates/*/src/*.rs')):
        if '/test/' in f or sub not in f: continue
        for n, l in enumerate(open(f).read().split('\n')):
            if l.startswith('#[cfg(test)]') and 'lib.rs' not in f and not f.endswith('/mod.rs'): break
            if l.startswith('#[cfg(test)]') and f.endswith('init/mod.rs'): break
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod'): continue
            seen = set()
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for rep in reps:
                        x = l[:m.start()] + m.expand(rep) + l[m.end():]
                        if x != l and x not in seen:
                            seen.add(x); r.append((f, n + 1, l, x))
            if re.match(r'^\s*[\w.\[\]*]+(\.\w+\(.*\))?( [-+*/]?= .*)?;\s*$', l) and not s.startswith('let') and not s.startswith('return'):
                r.append((f, n + 1, l, ''))
            if re.match(r'^\s*(debug_)?assert(_eq|_ne)?!\(.*\);\s*$', l): r.append((f, n + 1, l, ''))
            m = re.match(r'^(\s*)((?:\} else )?if )([^{]* )\{\s*$', l)
            if m and ' let ' not in l:
                r.append((f, n + 1, l, m[1] + m[2] + 'false && ' + '(' + m[3].strip() + ') {'))
                r.append((f, n + 1, l, m[1] + m[2] + 'true || ' + '(' + m[3].strip() + ') {'))
    with open(out, 'w') as o:
        for x in r: o.write(json.dumps(x) + '\n')
    print(len(r))

def sh(c, env, cwd, tmo=300):
    try:
        p = subprocess.run(c, shell=True, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, 'timeout'

def setup(w):
    d = '%s/w%d' % (ROOT, w)
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run('cp -a /repo %s/repo && cp -a /verif/harness %s/harness && mkdir %s/t && cp -a /verif/.build/mir %s/t/mir' % (d, d, d, d), shell=True, check=True)
        c = open(d + '/harness/Cargo.toml').read().replace('/repo', d + '/repo')
        open(d + '/harness/Cargo.toml', 'w').write(c)
    return d

def testenv(d):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=d + '/repo/target')
    return e

def worker(w, jobs, out):
    from interp import Prog
    from spec import run_ob, run_inst
    d = setup(w)
    B = json.load(open(BASE))
    OB = obls()
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []))
    sr = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    menv = dict(os.environ)
    for f, n, old, new in jobs:
        p = f.replace('/repo', d + '/repo', 1)
        txt = open(f).read().split('\n')
        assert txt[n - 1] == old
        txt[n - 1] = new
        open(p, 'w').write('\n'.join(txt))
        rec = dict(file=f, line=n, old=old.strip(), new=new.strip())
        try:
            t = time.time()
            rc, o = sh('timeout 100 cargo nextest run --workspace --offline --no-fail-fast --test-threads 2 --tool-config-file vp:/opt/vp/nextest.toml', testenv(d), d + '/repo', 120)
            rec['tt'] = round(time.time() - t, 1)
            if 'could not compile' in o or 'error: could not' in o: rec['st'] = 'nocompile'; continue
            fails = {a + '::' + b for a, b in re.findall(r'(?:FAIL|SIG\w+|TIMEOUT|ABORT)[^\n]*?\) (\S+) (\S+)', o)}
            if rc == 99 or rc == 124 or 'Summary' not in o or fails & stable: rec['st'] = 'tests'; continue
            t = time.time()
            mo = d + '/mir.json'
            if os.path.exists(mo): os.remove(mo)
            e = dict(os.environ, LD_LIBRARY_PATH=sr + '/lib', CARGO_TARGET_DIR=d + '/t/mir', VD_CRATE='vharness', VD_OUT=mo, RUSTC_WRAPPER='/verif/.build/driver/release/mirdump',
                     RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -C overflow-checks=off -C debug-assertions=off --cfg verif_hooks -Awarnings')
            sh('touch src/lib.rs', e, d + '/harness')
            os.utime(p)
            rc, o = sh('cargo +nightly check --offline', e, d + '/harness')
            if rc or not os.path.exists(mo): rec['st'] = 'nodump'; rec['log'] = o[-500:]; continue
            rec['dt'] = round(time.time() - t, 1)
            raw = json.load(open(mo))
            prog = Prog(raw)
            ch = set(B['lines'].get('%s:%d' % (f, n), []))
            c = [x for x in B['starts'].get(f, []) if x[0] <= n]
            if c:
                mx = max(x[0] for x in c); ch |= {x[1] for x in c if x[0] == mx}
            sel = [o for o in OB if (o.root + ' ' + o.name) in B['ob'] and ch & set(B['ob'][o.root + ' ' + o.name][1])]
            if not ch:
                ch = {x[1] for x in B['starts'].get(f, [])}
                sel = [o for o in OB if ch & set(B['ob'][o.root + ' ' + o.name][1])]
                rec['wide'] = True
            rec['fns'] = sorted(ch)[:4]; rec['nsel'] = len(sel)
            random.Random(1).shuffle(sel)
            hits = []; und = 0; why = ''
            t = time.time()
            changed = 0
            for o in sel:
                if time.time() - t > 150: rec['cut'] = True; break
                b = B['ob'][o.root + ' ' + o.name][0]
                if b != 'PROVED': continue
                try:
                    v = run_ob(prog, o, 8)
                    if v.status == 'UNDECIDED':
                        w0 = v.why
                        v = run_inst(prog, o, 8); 
                        if v.status == 'UNDECIDED': und += 1; why = o.root + ' [' + o.name + '] ' + w0[:200] + ' || ' + v.why[:100]
                except Exception:
                    und += 1; why = traceback.format_exc(limit=-2); continue
                if v.status == 'VIOLATION':
                    hits.append((o.prop, o.root + ' ' + o.name, v.kind, v.why[:160]))
                    if len(hits) >= 2: break
            rec['ct'] = round(time.time() - t, 1)
            rec['hits'] = hits; rec['und'] = und; rec['why'] = why
            rec['st'] = 'caught' if hits else ('undecided' if und else 'missed')
        except Exception:
            rec['st'] = 'error'; rec['log'] = traceback.format_exc()
        finally:
            shutil.copy2(f, p); os.utime(p)
            with open(out, 'a') as fo: fo.write(json.dumps(rec) + '\n')

def run(inp, out, W):
    from multiprocessing import Process
    jobs = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r['file'], r['line'], r['old'], r['new']))
    jobs = [j for j in jobs if (j[0], j[1], j[2].strip(), j[3].strip()) not in done]
    ps = []
    for w in range(W):
        p = Process(target=worker, args=(w, jobs[w::W], out)); p.start(); ps.append(p)
    for p in ps: p.join()

if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'base': base()
    elif c == 'gen': gen(sys.argv[3] if len(sys.argv) > 3 else '', sys.argv[2])
    elif c == 'run': run(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8)
