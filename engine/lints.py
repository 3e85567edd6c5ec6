"""Rules on the interface of the crate, and compile-fail witnesses.

They decide what no single operation shows: that no program can be written which
changes a tensor, sends one with a thread-bound payload to another thread, or keeps
a reference into storage that is gone.  The facts come from the type-checked crate
(signatures, fields, lifetimes dumped by driver/) and from rustc's own verdict on
small programs compiled against it.
"""
import glob
import json
import os
import re
import subprocess

HANDLES = ('Tensor', 'TensorData')
MUTREF = re.compile(r"&('[\w_]+ )?mut |\b(IterMut|ChunksMut|ChunksExactMut|RefMut|SplitMut)\b")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock)<")
# taking &mut Tensor is part of these traits and replaces nothing a clone can see
MUTOK = ('std::ops::Drop', 'std::clone::Clone', 'std::fmt::Debug', 'std::fmt::Display', 'std::hash::Hash', 'std::iter::Iterator')


def short(t):
    return re.sub(r"<.*", '', t).split('::')[-1]


def mentions(t, names=HANDLES):
    return any(re.search(r'(^|[^\w])%s<' % n, t) for n in names)


def item(rule, site, status, text):
    return dict(rule=rule, site=site, status=status, text=text)


def interface(api):
    out = []
    # C04
    n = 0
    for a in api['adts']:
        nm = short(a['path'])
        if nm in HANDLES:
            for f, pub, ty in a['fields']:
                n += 1
                if pub:
                    out.append(item('no-public-field', '%s.%s' % (a['path'], f), 'VIOLATION', 'field %s of %s is public (%s)' % (f, a['path'], a['loc'])))
        if nm in HANDLES or nm == 'Shape':
            for f, pub, ty in a['fields']:
                n += 1
                if CELLS.search(ty):
                    out.append(item('no-interior-mutability', '%s.%s' % (a['path'], f), 'VIOLATION',
                                    'field %s: %s of %s can change behind a shared handle (%s)' % (f, ty, a['path'], a['loc'])))
    out.append(item('no-public-field', 'fields', 'PROVED', '%d fields' % n))
    n = 0
    for f in api['fns']:
        if not f['public'] or f['unsafe']:
            continue
        n += 1
        ins = f['inputs']
        if not any(mentions(t) for t in ins):
            continue
        if MUTREF.search(f['output']) and not f['output'].startswith('&mut std::fmt'):
            out.append(item('no-mutable-access', f['path'], 'VIOLATION', 'returns %s from a tensor (%s)' % (f['output'], f['loc'])))
        elif f['trait'] not in MUTOK:
            for t in ins:
                m = re.match(r"&('[\w_]+ )?mut (.*)$", t)
                if m and short(m.group(2)) in HANDLES:
                    out.append(item('no-mutable-access', f['path'], 'VIOLATION', 'takes %s (%s)' % (t, f['loc'])))
    out.append(item('no-mutable-access', 'signatures', 'PROVED', '%d safe public functions' % n))
    return out


def lifetimes(api):
    out = []
    n = 0
    for f in api['fns']:
        if not f['public'] or f['unsafe']:
            continue
        n += 1
        if f['loose'] and ' as ' not in f['output'] and any(mentions(t) or t.startswith('&') for t in f['inputs']):
            out.append(item('borrow-outlives-storage', f['path'], 'VIOLATION',
                            'the result %s borrows for %s, which no argument lives for (%s)' % (f['output'], ', '.join(f['loose']), f['loc'])))
        elif re.search(r"&'static ", f['output']) and any(mentions(t) for t in f['inputs']) and not re.search(r"&'static str", f['output']):
            out.append(item('borrow-outlives-storage', f['path'], 'VIOLATION', 'the result %s of a tensor lives for ever (%s)' % (f['output'], f['loc'])))
    out.append(item('borrow-outlives-storage', 'signatures', 'PROVED', '%d safe public functions' % n))
    return out


PRE = '''#![allow(unused)]
extern crate essay_tensor;
use essay_tensor::tensor::{Tensor, Type, Shape};
fn send<T: Send>() {}
fn sync<T: Sync>() {}
'''
# name, body, the error it must give (None: must compile)
THREADS = [
    ('control', 'fn f(t: &Tensor<f32>) { let _ = t.size(); }', None),
    ('f32 is shareable', 'fn f() { send::<Tensor<f32>>(); sync::<Tensor<f32>>(); send::<Shape>(); sync::<Shape>(); }', None),
    ('T: Send + Sync is shareable', 'fn f<T: Type + Send + Sync + \'static>() { send::<Tensor<T>>(); sync::<Tensor<T>>(); }', None),
    ('Send without bounds', 'fn f<T: Type>() { send::<Tensor<T>>(); }', 'E0277'),
    ('Sync without bounds', 'fn f<T: Type>() { sync::<Tensor<T>>(); }', 'E0277'),
    ('Send with T: Send only', 'fn f<T: Type + Send>() { send::<Tensor<T>>(); }', 'E0277'),
    ('Sync with T: Send only', 'fn f<T: Type + Send>() { sync::<Tensor<T>>(); }', 'E0277'),
    ('Send with T: Sync only', 'fn f<T: Type + Sync>() { send::<Tensor<T>>(); }', 'E0277'),
    ('a Cell reaches another thread', 'struct C(std::cell::Cell<u8>);\nimpl Type for C {}\nfn f(t: Tensor<C>) { std::thread::spawn(move || { let _ = t.size(); }); }', 'E0277'),
    ('a shared Rc reaches another thread', 'struct C(std::rc::Rc<u8>);\nimpl Type for C {}\nfn f(t: &Tensor<C>) { std::thread::scope(|s| { s.spawn(|| { let _ = t.size(); }); }); }', 'E0277'),
    ('element assignment', 'fn f(t: &mut Tensor<f32>) { t[0] = 1.0; }', ('E0594', 'E0596', 'E0614')),
    ('mutable slice from deref', 'fn f(t: &mut Tensor<f32>) { let s: &mut [f32] = &mut **t; }', ('E0614', 'E0596', 'E0308')),
    ('mutable slice from AsMut', 'fn f(t: &mut Tensor<f32>) { let s: &mut [f32] = AsMut::<[f32]>::as_mut(t); }', 'E0277'),
    ('mutable iteration', 'fn f(t: &mut Tensor<f32>) { for x in t { *x = 1.0; } }', ('E0277', 'E0594', 'E0614')),
    ('mutable slice', 'fn f(t: &mut Tensor<f32>) { let s: &mut [f32] = t.as_slice(); }', 'E0308'),
]
BORROWS = [
    ('control', 'fn f(t: &Tensor<f32>) -> &[f32] { t.as_slice() }', None),
    ('slice outlives tensor', 'fn f(t: Tensor<f32>) -> &\'static [f32] { t.as_slice() }', ('E0515', 'E0505', 'E0597')),
    ('slice used after drop', 'fn f(t: Tensor<f32>) -> f32 { let s = t.as_slice(); drop(t); s[0] }', 'E0505'),
    ('element used after drop', 'fn f(t: Tensor<f32>) -> f32 { let s = &t[0]; drop(t); *s }', 'E0505'),
    ('iterator used after drop', 'fn f(t: Tensor<f32>) -> f32 { let mut s = t.iter(); drop(t); *s.next().unwrap() }', 'E0505'),
    ('vector moved into a tensor', 'fn f(v: Vec<f32>) -> (Tensor<f32>, usize) { let t = Tensor::from(v); (t, v.len()) }', 'E0382'),
    ('elements moved into a tensor', 'fn f(v: Vec<String>) -> (Tensor<String>, usize) { let t = Tensor::from_vec(v, 1); (t, v.len()) }', 'E0382'),
]


def witness(env, cases, rule):
    b = env['build']
    rm = glob.glob(os.path.join(b, 'mir/debug/build/essay-tensor/*/out/libessay_tensor-*.rmeta')) + glob.glob(os.path.join(b, 'mir/debug/deps/libessay_tensor-*.rmeta'))
    if not rm:
        return [item(rule, 'all', 'UNDECIDED', 'no compiled crate')]
    rm = max(rm, key=os.path.getmtime)
    ls = sorted({os.path.dirname(x) for x in glob.glob(os.path.join(b, 'mir/debug/build/*/*/out/*.rmeta')) + glob.glob(os.path.join(b, 'mir/debug/build/*/*/out/*.so'))})
    d = os.path.join(b, 'wit')
    os.makedirs(d, exist_ok=True)
    ps = []
    for i, (name, body, want) in enumerate(cases):
        src = os.path.join(d, '%s%d.rs' % (rule[:4], i))
        open(src, 'w').write(PRE + body + '\n')
        cmd = ['rustc', '+nightly', '--edition=2021', '--crate-type=lib', '--emit=metadata', '--error-format=json', '--cap-lints=allow', '-o', src[:-3] + '.rmeta',
               '--extern', 'essay_tensor=' + rm, src]
        for l in ls:
            cmd += ['-L', 'dependency=' + l]
        e = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTFLAGS'):
            e.pop(k, None)
        ps.append((name, want, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=e)))
    out = []
    broken = False
    for name, want, p in ps:
        err = p.communicate()[1]
        codes = []
        for l in err.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error' and m.get('code'):
                codes.append(m['code']['code'])
        if name == 'control':
            broken = p.returncode != 0
            continue
        if broken:
            out.append(item(rule, name, 'UNDECIDED', 'the control program does not compile: ' + err[-200:]))
        elif want is None:
            out.append(item(rule, name, 'PROVED' if p.returncode == 0 else 'VIOLATION' if set(codes) == {'E0277'} else 'UNDECIDED',
                            'compiles' if p.returncode == 0 else 'must compile: %s' % ' '.join(codes)))
        elif p.returncode == 0:
            out.append(item(rule, name, 'VIOLATION', 'the program compiles and must be rejected'))
        else:
            ok = codes and all(c in want for c in codes)
            out.append(item(rule, name, 'PROVED' if ok else 'UNDECIDED', 'rejected with %s' % ' '.join(codes)))
    return out


def run(prop, deep, env):
    out = []
    if prop not in ('C04', 'C05'):
        return out
    if os.path.exists(env['api']):
        api = json.load(open(env['api']))
        out += interface(api) if prop == 'C04' else lifetimes(api)
    out += witness(env, THREADS if prop == 'C04' else BORROWS, 'compile-fail')
    return out
