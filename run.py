#!/usr/bin/env python3
"""Entry point of every check.

  run.py setup                 build the MIR driver and warm the dependency build
  run.py check <ID>            decide property <ID> on /repo's current tree
  run.py replay <file>         evaluate again the obligation a replay file names
  run.py list                  obligations per property
"""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
BUILD = os.path.join(HERE, '.build')
MODS = json.load(open(os.path.join(HERE, 'engine', 'modules.json')))
MEMORY = {
    # kinds of violation that decide the cross-cutting memory properties
    'C01': ('uninit', 'memw', 'dup'),
    'C02': ('mem', 'window'),
    'C03': ('size', 'shape', 'nopanic'),
    # and sharing and ownership
    'C04': ('mutate',),
    'C05': ('own', 'dup', 'uninit'),
}
TRUSTED = [
    'rustc nightly front end: the MIR dumped by driver/ is the meaning of the source',
    'engine/models.py: summaries of the std, num and matrixmultiply-style leaf functions the crate calls',
    'engine/{interp,loops,prover,seqs}.py: the abstract interpreter itself',
    'engine/obl_*.py: the expected result written for each operation',
]
ASSUME = [
    'dimensions and products of dimensions stay below 2^32 and index arithmetic does not overflow usize',
    'allocation either succeeds or aborts; element types are not zero-sized',
    'an unsigned subtraction that would underflow counts as a panic',
]


def sh(cmd, env=None, cwd=None, log=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, 'w') as f:
            f.write(r.stdout)
    return r.returncode, r.stdout


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    exe = os.path.join(BUILD, 'driver', 'release', 'mirdump')
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS'):
        env.pop(k, None)
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], env, os.path.join(HERE, 'driver'))
    if rc != 0:
        raise SystemExit('driver build failed:\n' + out[-4000:])
    return exe


def dump(exe, out):
    """compile /repo and the harness with the driver; None when it does not compile"""
    sr = sysroot()
    tgt = os.path.join(BUILD, 'mir')
    # always recompile the analysed crates, whatever the time stamps say
    for base in ('debug/.fingerprint', 'debug/build', 'debug/deps', 'debug/incremental'):
        for pat in ('essay*', 'libessay*', 'vharness*', 'libvharness*'):
            for d in glob.glob(os.path.join(tgt, base, pat)):
                shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    env.update(LD_LIBRARY_PATH=sr + '/lib', CARGO_TARGET_DIR=tgt, VD_CRATE='vharness', VD_OUT=out, VD_API=out + '.api', RUSTC_WRAPPER=exe,
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -C overflow-checks=off -C debug-assertions=off --cfg verif_hooks -Awarnings')
    rc, log = sh(['cargo', '+nightly', 'check', '--offline'], env, os.path.join(HERE, 'harness'), os.path.join(BUILD, 'dump.log'))
    if rc != 0:
        return None, log
    if not os.path.exists(out):
        raise SystemExit('no MIR written:\n' + log[-3000:])
    return out, log


def obligations(deep):
    out = []
    for m in MODS:
        out += importlib.import_module('obl_' + m).obls(deep)
    return out


_G = {}


def one(job):
    from spec import run_ob, run_inst
    i, mode, tmo = job
    t = time.time()
    ob = _G['obs'][i]
    if t > _G['end']:
        return i, 'UNDECIDED', 'budget', None, None, 0, (), 0, None, 0.0
    try:
        v = run_ob(_G['prog'], ob, tmo) if mode == 'sym' else run_inst(_G['prog'], ob, tmo)
        if v.also is not None and _G['kinds'] and v.kind not in _G['kinds'] and v.also.kind in _G['kinds']:
            v.why, v.wit, v.kind = v.also.why, v.also.wit, v.also.kind
        return i, v.status, v.why, v.wit, v.loc, v.nreq, sorted(v.fns), v.steps, v.kind, time.time() - t
    except Exception:
        return i, 'UNDECIDED', 'internal: ' + traceback.format_exc(limit=-3), None, None, 0, (), 0, None, time.time() - t


def evaluate(prog, obs, deep, kinds=None, counts=None):
    """every obligation for all shapes; those left open are searched for a refuting constant shape.
    counts(i, r) tells whether result r of obligation i is a new violation of the checked property: once some are known,
    what is still open is not pursued for long"""
    from multiprocessing import get_context
    t0 = time.time()
    _G.update(prog=prog, obs=obs, kinds=kinds, end=t0 + (3000 if deep else 500))
    res = [None] * len(obs)
    if not obs:
        return res
    hits = [0]
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        def go(jobs, enough):
            for r in p.imap_unordered(one, jobs, chunksize=1 if len(jobs) < 2000 else 4):
                if res[r[0]] is None or r[1] != 'UNDECIDED':
                    res[r[0]] = r
                if r[1] == 'VIOLATION' and (counts is None or counts(r)):
                    hits[0] += 1
                if enough():
                    return
        go([(i, 'sym', 60 if deep else 25) for i in range(len(obs))], lambda: hits[0] >= 3 and time.time() - t0 > 120)
        res = [r or (i, 'UNDECIDED', 'not pursued after the violations', None, None, 0, (), 0, None, 0.0) for i, r in enumerate(res)]
        left = [r[0] for r in res if r[1] == 'UNDECIDED']
        if left and not hits[0]:
            go([(i, 'inst', 30 if deep else 12) for i in left], lambda: hits[0] >= 3)
        left = [r[0] for r in res if r[1] == 'UNDECIDED' and r[2] == 'time budget']
        if left and not hits[0]:
            go([(i, 'sym', 300 if deep else 90) for i in left], lambda: hits[0] >= 3)
    return res


def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                key = l.split('obligation="', 1)[1].split('"', 1)[0]
                out[key] = l.split('" ', 1)[1].strip()
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    deep = tier == 'thorough'
    ev = dict(property=prop, tier=tier, seed=seed, level='other', assumptions=list(ASSUME), violations=0)
    bad = []          # (key, text, replay dict)
    notes = {}
    exe = build_driver()
    mir, log = dump(exe, os.path.join(BUILD, 'mir-%s.json' % prop))
    cov = dict(rule='every obligation is one public operation with symbolic dimensions, offsets and elements; it is '
                    'discharged when the summary computed from the MIR equals the specified result for all values')
    undec = []
    if mir is None:
        notes['harness'] = 'the analysed entry points do not compile against this tree; nothing decided: ' + log[-400:]
        obs = []
    else:
        from interp import Prog
        raw = json.load(open(mir))
        os.remove(mir)
        prog = Prog(raw)
        allobs = obligations(deep)
        kinds = MEMORY.get(prop)
        if kinds:
            obs = [o for o in allobs if o.prop == prop or (o.tensor and (deep or o.light))]
        else:
            obs = [o for o in allobs if o.prop == prop]
        kn0 = known(prop)

        def counts(r):
            o = obs[r[0]]
            if kinds and o.prop != prop and r[8] not in kinds:
                return False
            if not kinds and r[8] in ('dup', 'own', 'mutate'):
                return False
            return o.root + ' ' + o.name not in kn0
        res = evaluate(prog, obs, deep, kinds, counts)
        fns = set()
        reqs = steps = 0
        samples = []
        for i, st, why, wit, loc, nreq, fn, sp, kind, dt in res:
            o = obs[i]
            fns.update(fn)
            reqs += nreq
            steps += sp
            if st == 'VIOLATION':
                if (kinds and o.prop != prop and kind not in kinds) or (not kinds and kind in ('dup', 'own', 'mutate')):
                    continue
                bad.append((o.root + ' ' + o.name, '%s: %s; sizes %s at %s' % (kind, why, wit, loc),
                            dict(kind='obligation', property=prop, root=o.root, name=o.name, deep=deep, why=why, sizes=wit, where=str(loc))))
            elif st != 'PROVED':
                undec.append('%s [%s]: %s' % (o.root, o.name, why[:160]))
            elif len(samples) < 6 and (i % max(1, len(obs) // 6)) == 0:
                samples.append('%s [%s]: %d conditions shown' % (o.root, o.name, nreq))
        cov.update(obligations=len(obs), discharged=sum(1 for r in res if r[1] == 'PROVED'), conditions=reqs,
                   functions_analysed=len(fns), crate_functions=sorted(f for f in fns if 'essay' in f or '::' in f)[:80],
                   abstract_steps=steps, samples=samples)
    import lints
    for r in lints.run(prop, deep, dict(here=HERE, build=BUILD, repo='/repo', mir=raw if mir else None, api=os.path.join(BUILD, 'mir-%s.json.api' % prop))):
        if r['status'] == 'VIOLATION':
            bad.append((r['rule'] + ' ' + r['site'], r['text'], dict(kind='lint', property=prop, **r)))
        elif r['status'] == 'UNDECIDED':
            undec.append('%s %s: %s' % (r['rule'], r['site'], r['text'][:160]))
        cov.setdefault('lint_rules', {}).setdefault(r['rule'], []).append('%s: %s' % (r['site'], r['status']))
    for k, v in list(cov.get('lint_rules', {}).items()):
        cov['lint_rules'][k] = dict(sites=len(v), listed=v[:40])
        cov['obligations'] = cov.get('obligations', 0) + len(v)
        cov['discharged'] = cov.get('discharged', 0) + sum(1 for x in v if x.endswith(': PROVED'))
    kn = known(prop)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*.json')):
        os.remove(f)
    viol = 0
    for key, text, rep in bad:
        if key in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[key]))
            continue
        viol += 1
        if viol <= 20:
            path = os.path.join(rdir, '%s-%d.json' % (prop, viol))
            with open(path, 'w') as f:
                json.dump(dict(rep, key=key, text=text), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (key, text[:600]))
    cov['undecided'] = len(undec)
    if undec:
        cov['undecided_sites'] = undec[:40]
        print('%s: %d obligations undecided (not counted either way), e.g. %s' % (prop, len(undec), undec[0][:300]))
    if notes:
        cov['notes'] = notes
        print(notes)
    cov['explanation'] = ('Static value-flow analysis of the MIR of /repo: obligations=%d discharged=%d undecided=%d, for all sizes, offsets '
                          'and element values at each listed rank.' % (cov.get('obligations', 0), cov.get('discharged', 0), len(undec)))
    cov['checker_cmd'] = 'python3 run.py check %s' % prop
    cov['trusted_base'] = TRUSTED
    ev['coverage'] = cov
    ev['violations'] = viol
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d undecided, %d violations, %.1fs' % (
        prop, cov.get('discharged', 0), cov.get('obligations', 0), len(undec), viol, time.time() - t0))
    return 1 if viol else 0


def replay(path):
    rep = json.load(open(path))
    if rep['kind'] != 'obligation':
        print(json.dumps(rep, indent=1))
        return check(rep['property'], 'quick')
    exe = build_driver()
    mir, log = dump(exe, os.path.join(BUILD, 'mir-replay.json'))
    if mir is None:
        print(log[-2000:])
        return 2
    from interp import Prog
    from spec import run_ob
    prog = Prog(json.load(open(mir)))
    for o in obligations(rep.get('deep', False)):
        if o.root == rep['root'] and o.name == rep['name']:
            v = run_ob(prog, o, 120)
            print(v.status, v.kind, v.why, v.wit, v.loc)
            return 1 if v.status == 'VIOLATION' else 0
    print('no such obligation')
    return 2


def main(a):
    if a[0] == 'setup':
        exe = build_driver()
        r, log = dump(exe, os.path.join(BUILD, 'mir-setup.json'))
        if r:
            os.remove(r)
        return 0
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[1], tier)
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'list':
        c = {}
        for o in obligations(False):
            c[o.prop] = c.get(o.prop, 0) + 1
        print(c)
        return 0
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
