// rustc driver: dumps the monomorphised MIR reachable from the harness roots
// (crate named by VD_CRATE) as JSON.  Nothing is executed or codegenned.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    fn_json: Vec<(usize, String)>,
    consts: HashMap<(DefId, ty::GenericArgsRef<'tcx>), usize>,
    interp_all: bool,
}

// std items that are interpreted from their own MIR; everything else in std is
// handed to the analyser by name
const INTERP: &[&str] = &[
    "std::option::", "core::option::", "std::result::", "core::result::",
    "std::convert::", "core::convert::", "std::cmp::", "core::cmp::", "std::default::", "core::default::",
    "std::ops::", "core::ops::", "std::mem::swap", "std::mem::replace", "std::mem::take",
    "core::mem::swap", "core::mem::replace", "core::mem::take",
    "std::bool::", "core::bool::", "std::num::wrapping::", "core::num::wrapping::",
    "std::borrow::", "core::borrow::", "std::iter::Iterator::collect",
];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let name = esc(&format!("{}", t));
        let mut s = String::new();
        let _ = write!(s, "{{\"n\":{}", name);
        match t.kind() {
            ty::Bool => s.push_str(",\"k\":\"bool\""),
            ty::Char => s.push_str(",\"k\":\"char\""),
            ty::Int(_) => s.push_str(",\"k\":\"int\""),
            ty::Uint(_) => s.push_str(",\"k\":\"uint\""),
            ty::Float(_) => s.push_str(",\"k\":\"float\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let path = esc(&self.tcx.def_path_str(def.did()));
                let crate_ = esc(self.tcx.crate_name(def.did().krate).as_str());
                let mut a = Vec::new();
                for x in args.iter() {
                    if let Some(tt) = x.as_type() {
                        a.push(format!("{}", self.ty(tt)));
                    } else if let Some(c) = x.as_const() {
                        let v = c.try_to_target_usize(self.tcx);
                        a.push(match v { Some(v) => format!("\"{}\"", v), None => "null".into() });
                    }
                }
                let mut vs = Vec::new();
                for v in def.variants().iter() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let fty = f.ty(self.tcx, args);
                        let fty = self.norm(fty.skip_norm_wip());
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(fty)));
                    }
                    vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                }
                let mut discr = Vec::new();
                if def.is_enum() {
                    for (_, d) in def.discriminants(self.tcx) {
                        discr.push(format!("\"{}\"", d.val));
                    }
                }
                if crate_.contains("essay") {
                    if let Some(d) = def.destructor(self.tcx) {
                        let inst = Instance::try_resolve(self.tcx, self.env, d.did, self.tcx.erase_and_anonymize_regions(*args)).ok().flatten();
                        if let Some(inst) = inst { let id = self.inst(inst); let _ = write!(s, ",\"drop\":{}", id); }
                    }
                }
                let _ = write!(s, ",\"k\":\"{}\",\"path\":{},\"crate\":{},\"args\":[{}],\"variants\":[{}],\"discr\":[{}]",
                    kind, path, crate_, a.join(","), vs.join(","), discr.join(","));
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(s, ",\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), i);
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(s, ",\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), i);
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                let _ = write!(s, ",\"k\":\"slice\",\"t\":{}", i);
            }
            ty::Array(inner, len) => {
                let i = self.ty(*inner);
                let n = len.try_to_target_usize(self.tcx);
                let _ = write!(s, ",\"k\":\"array\",\"t\":{},\"len\":{}", i, match n { Some(n) => format!("{}", n), None => "null".into() });
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| format!("{}", self.ty(x))).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"ts\":[{}]", v.join(","));
            }
            ty::Closure(def, args) => {
                let kind = args.as_closure().kind();
                let inst = Instance::resolve_closure(self.tcx, *def, args, kind);
                let id = self.inst(inst);
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| { let x = self.norm(x); format!("{}", self.ty(x)) }).collect();
                let _ = write!(s, ",\"k\":\"closure\",\"inst\":{},\"ckind\":\"{:?}\",\"ups\":[{}]", id, kind, ups.join(","));
            }
            ty::FnDef(def, args) => {
                let args = args.no_bound_vars().unwrap_or(ty::List::empty());
                match self.fnref(*def, args) {
                    Some(f) => { let _ = write!(s, ",\"k\":\"fndef\",\"f\":{}", f); }
                    None => s.push_str(",\"k\":\"fndef\",\"f\":null"),
                }
            }
            ty::FnPtr(..) => s.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        self.ty_json[i] = s;
        i
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let e = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(e))
    }

    fn interp(&self, inst: &Instance<'tcx>) -> bool {
        if self.interp_all { return true; }
        let did = inst.def_id();
        let k = self.tcx.crate_name(did.krate);
        match k.as_str() {
            "core" | "alloc" | "std" => {
                let p = self.tcx.def_path_str(did);
                let trait_or_self = p.trim_start_matches('<').to_string();
                if INTERP.iter().any(|x| trait_or_self.starts_with(x)) {
                    return true;
                }
                // trait impls: judge by the trait that is implemented
                if let Some(imp) = self.tcx.impl_of_assoc(did) {
                    if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                        let tp = self.tcx.def_path_str(tr.skip_binder().def_id);
                        if INTERP.iter().any(|x| tp.starts_with(x)) {
                            return true;
                        }
                    }
                }
                // closures inside an interpreted std fn
                if self.tcx.is_closure_like(did) {
                    return true;
                }
                false
            }
            "rustfft" | "matrixmultiply" | "rand" | "rand_chacha" | "rand_core" | "log" | "env_logger" | "getrandom" => false,
            _ => true,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let id = self.inst_list.len();
        self.insts.insert(i, id);
        self.inst_list.push(i);
        self.queue.push_back(id);
        id
    }

    fn args_json(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut a = Vec::new();
        for x in args.iter() {
            if let Some(tt) = x.as_type() {
                a.push(format!("{}", self.ty(tt)));
            } else if let Some(c) = x.as_const() {
                a.push(match c.try_to_target_usize(self.tcx) { Some(v) => format!("\"{}\"", v), None => "null".into() });
            }
        }
        format!("[{}]", a.join(","))
    }

    fn fnref(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let r = Instance::try_resolve(self.tcx, self.env, def, args).ok().flatten();
        let decl = esc(&self.tcx.def_path_str(def));
        let dargs = self.args_json(args);
        match r {
            None => Some(format!("{{\"decl\":{},\"dargs\":{},\"inst\":null,\"path\":{},\"args\":{}}}", decl, dargs, decl, dargs)),
            Some(inst) => {
                let id = self.inst(inst);
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let path = esc(&self.tcx.def_path_str(inst.def_id()));
                let a2 = self.args_json(inst.args);
                Some(format!("{{\"decl\":{},\"dargs\":{},\"inst\":{},\"path\":{},\"args\":{},\"ik\":\"{}\"}}", decl, dargs, id, path, a2, kind))
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { s.push(','); }
            match e {
                ProjectionElem::Deref => s.push_str("\"*\""),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); let _ = write!(s, "[\"f\",{},{}]", f.as_usize(), t); }
                ProjectionElem::Index(l) => { let _ = write!(s, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(s, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(s, "[\"sub\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(s, "[\"dc\",{}]", v.as_usize()); }
                _ => s.push_str("[\"other\"]"),
            }
        }
        s.push_str("]]");
        s
    }

    fn scalar_json(&mut self, sc: Scalar, t: Ty<'tcx>) -> String {
        let tid = self.ty(t);
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"sz\":{},\"t\":{}}}", bits, i.size().bytes(), tid)
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                self.ptr_json(aid, off.bytes(), t, None)
            }
        }
    }

    fn ptr_json(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>) -> String {
        let tid = self.ty(t);
        match self.tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(_)) => {
                let inner = match t.kind() {
                    ty::Ref(_, i, _) => *i,
                    ty::RawPtr(i, _) => *i,
                    _ => return format!("{{\"k\":\"opaque\",\"t\":{}}}", tid),
                };
                let v = match inner.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0);
                        let b = self.bytes(aid, off, n);
                        format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&b)))
                    }
                    ty::Slice(el) => {
                        let n = meta.unwrap_or(0);
                        let el = *el;
                        let sz = self.size_of(el);
                        let mut xs = Vec::new();
                        if n <= 4096 {
                            for i in 0..n { xs.push(self.mem_json(aid, off + i * sz, el)); }
                        }
                        let et = self.ty(el);
                        format!("{{\"k\":\"array\",\"xs\":[{}],\"et\":{}}}", xs.join(","), et)
                    }
                    _ => self.mem_json(aid, off, inner),
                };
                format!("{{\"k\":\"ref\",\"v\":{},\"t\":{}}}", v, tid)
            }
            Some(GlobalAlloc::Function { instance }) => {
                let id = self.inst(instance);
                format!("{{\"k\":\"fnptr\",\"inst\":{},\"t\":{}}}", id, tid)
            }
            Some(GlobalAlloc::Static(d)) => {
                format!("{{\"k\":\"static\",\"d\":{},\"t\":{}}}", esc(&self.tcx.def_path_str(d)), tid)
            }
            _ => format!("{{\"k\":\"opaque\",\"t\":{}}}", tid),
        }
    }

    fn size_of(&self, t: Ty<'tcx>) -> u64 {
        self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(0)
    }

    fn bytes(&self, aid: AllocId, off: u64, n: u64) -> Vec<u8> {
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(aid) {
            let a = a.inner();
            return a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize).to_vec();
        }
        Vec::new()
    }

    fn mem_json(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>) -> String {
        let tid = self.ty(t);
        let opaque = format!("{{\"k\":\"opaque\",\"t\":{}}}", tid);
        let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) else { return opaque; };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let b = self.bytes(aid, off, layout.size.bytes());
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"sz\":{},\"t\":{}}}", v, layout.size.bytes(), tid)
            }
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let sz = self.size_of(*el);
                let mut xs = Vec::new();
                if n <= 4096 {
                    for i in 0..n { xs.push(self.mem_json(aid, off + i * sz, *el)); }
                }
                format!("{{\"k\":\"array\",\"xs\":[{}],\"t\":{}}}", xs.join(","), tid)
            }
            ty::Tuple(ts) => {
                let mut xs = Vec::new();
                for (i, x) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    xs.push(self.mem_json(aid, off + o, x));
                }
                format!("{{\"k\":\"tuple\",\"xs\":[{}],\"t\":{}}}", xs.join(","), tid)
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut xs = Vec::new();
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    let ft = self.norm(f.ty(self.tcx, args).skip_norm_wip());
                    xs.push(self.mem_json(aid, off + o, ft));
                }
                format!("{{\"k\":\"adt\",\"var\":0,\"xs\":[{}],\"t\":{}}}", xs.join(","), tid)
            }
            ty::Adt(def, _) if def.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                match &layout.variants {
                    Variants::Single { index } if def.variant(*index).fields.is_empty() => {
                        format!("{{\"k\":\"adt\",\"var\":{},\"xs\":[],\"t\":{}}}", index.as_usize(), tid)
                    }
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
                        let n = tag.size(&self.tcx).bytes();
                        let o = layout.fields.offset(tag_field.as_usize()).bytes();
                        let b = self.bytes(aid, off + o, n);
                        let mut v: u128 = 0;
                        for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); }
                        let mask: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        for (idx, d) in def.discriminants(self.tcx) {
                            if d.val & mask == v && def.variant(idx).fields.is_empty() {
                                return format!("{{\"k\":\"adt\",\"var\":{},\"xs\":[],\"t\":{}}}", idx.as_usize(), tid);
                            }
                        }
                        opaque
                    }
                    _ => opaque,
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(aid) {
                    let a = a.inner();
                    if let Some((_, prov)) = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() == off) {
                        let b = self.bytes(aid, off, 8);
                        let mut o2: u64 = 0;
                        for (i, x) in b.iter().enumerate() { o2 |= (*x as u64) << (8 * i); }
                        let meta = match inner.kind() {
                            ty::Str | ty::Slice(_) => {
                                let b = self.bytes(aid, off + 8, 8);
                                let mut m: u64 = 0;
                                for (i, x) in b.iter().enumerate() { m |= (*x as u64) << (8 * i); }
                                Some(m)
                            }
                            _ => None,
                        };
                        return self.ptr_json(prov.alloc_id(), o2, t, meta);
                    }
                }
                opaque
            }
            _ => opaque,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if matches!(t.kind(), ty::FnDef(..)) {
            return format!("{{\"k\":\"fn\",\"t\":{}}}", tid);
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => match v {
                ConstValue::Scalar(s) => self.scalar_json(s, t),
                ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}}}", tid),
                ConstValue::Slice { alloc_id, meta } => self.ptr_json(alloc_id, 0, t, Some(meta)),
                ConstValue::Indirect { alloc_id, offset } => self.mem_json(alloc_id, offset.bytes(), t),
            },
            Err(_) => format!("{{\"k\":\"opaque\",\"t\":{}}}", tid),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, c.span)),
            _ => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"repeat\",{},{}]", self.operand(o), match n { Some(n) => format!("{}", n), None => "null".into() })
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.tcx.def_path_str(*d))),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc),
                    k => format!("{:?}", k),
                };
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&kn), self.operand(o), t)
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        format!("[\"adt\",{},{},{}]", t, v.as_usize(), match af { Some(f) => format!("{}", f.as_usize()), None => "null".into() })
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => { let _ = m; let t = self.ty(*t); format!("[\"rawptr\",{}]", t) }
                    _ => "[\"other\"]".into(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},[{}]]", kj, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => "[\"other\"]".into(),
        }
    }

    fn loc(&self, span: rustc_span::Span) -> String {
        // the place in user code the statement stems from
        let sp = span.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, l.line)
    }

    fn body_json(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>) -> String {
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx, self.env, EarlyBinder::bind(self.tcx, body.clone()));
        let body = &body;
        let mut s = String::new();
        let locals: Vec<String> = body.local_decls.iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let _ = write!(s, "\"argc\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[",
            body.arg_count, match body.spread_arg { Some(l) => format!("{}", l.as_usize()), None => "null".into() }, locals.join(","));
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { s.push(','); }
            s.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        format!("[\"=\",{},{}]", p, r)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)),
                        _ => continue,
                    },
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&j);
            }
            s.push_str("],");
            let t = bb.terminator();
            let loc = esc(&self.loc(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{}]", d, ts.join(","), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let fj = match ft.kind() {
                        ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or(ty::List::empty()); self.fnref(*d, a).unwrap_or("null".into()) }
                        _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                    };
                    let aj: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let atys: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); format!("{}", self.ty(t)) }).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},[{}],{},{},[{}],{}]", fj, aj.join(","), self.place(destination),
                        match target { Some(t) => format!("{}", t.as_usize()), None => "null".into() }, atys.join(","), dt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(cond), expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(s, "{},{},{}]", tj, loc, bb.is_cleanup);
        }
        s.push(']');
        s
    }

    fn process(&mut self, id: usize) {
        let inst = self.inst_list[id];
        let did = inst.def_id();
        let path = esc(&self.tcx.def_path_str(did));
        let krate = esc(self.tcx.crate_name(did.krate).as_str());
        let args = self.args_json(inst.args);
        let mut s = format!("{{\"id\":{},\"path\":{},\"crate\":{},\"args\":{},\"inst\":{}", id, path, krate, args, esc(&format!("{}", inst)));
        let ok = match inst.def {
            InstanceKind::Item(d) => self.interp(&inst) && self.tcx.is_mir_available(d) && !self.tcx.is_foreign_item(d),
            _ => false,
        };
        if ok {
            let body = self.tcx.instance_mir(inst.def);
            let span = self.loc(self.tcx.def_span(did));
            let _ = write!(s, ",\"span\":{}", esc(&span));
            let b = self.body_json(inst, body);
            let _ = write!(s, ",{}", b);
        }
        s.push('}');
        self.fn_json.push((id, s));
    }
}

/// signatures, fields and impls of the analysed crate, for the rules on its interface
fn api<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut fns = Vec::new();
    let mut adts = Vec::new();
    let mut impls = Vec::new();
    let vis = tcx.effective_visibilities(());
    for def in tcx.hir_crate_items(()).definitions() {
        let did = def.to_def_id();
        let loc = { let sm = tcx.sess.source_map(); let sp = tcx.def_span(did); let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line) };
        match tcx.def_kind(def) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.liberate_late_bound_regions(did, sig);
                let mut inr = std::collections::HashSet::new();
                for t in sig.inputs().iter() { tcx.for_each_free_region(t, |r| { inr.insert(format!("{:?}", r)); }); }
                let mut loose = Vec::new();
                let st = format!("{:?}", tcx.lifetimes.re_static);
                tcx.for_each_free_region(&sig.output(), |r| { let x = format!("{:?}", r); if x != st && !inr.contains(&x) { loose.push(esc(&x)); } });
                let tr = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| tcx.def_path_str(t.skip_binder().def_id));
                let public = vis.is_reachable(def) || (tr.is_some());
                let ins: Vec<String> = sig.inputs().iter().map(|t| esc(&format!("{}", t))).collect();
                fns.push(format!("{{\"path\":{},\"public\":{},\"unsafe\":{},\"inputs\":[{}],\"output\":{},\"loose\":[{}],\"trait\":{},\"loc\":{}}}",
                    esc(&tcx.def_path_str(did)), public, !sig.safety().is_safe(), ins.join(","), esc(&format!("{}", sig.output())), loose.join(","),
                    match tr { Some(t) => esc(&t), None => "null".into() }, esc(&loc)));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let d = tcx.adt_def(did);
                let mut fs = Vec::new();
                for f in d.all_fields() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fs.push(format!("[{},{},{}]", esc(f.name.as_str()), f.vis.is_public(), esc(&format!("{}", t))));
                }
                adts.push(format!("{{\"path\":{},\"public\":{},\"enum\":{},\"fields\":[{}],\"loc\":{}}}", esc(&tcx.def_path_str(did)), vis.is_reachable(def), d.is_enum(), fs.join(","), esc(&loc)));
            }
            DefKind::Impl { of_trait: true } => {
                let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                impls.push(format!("{{\"trait\":{},\"self\":{},\"loc\":{}}}", esc(&tcx.def_path_str(t.def_id)), esc(&format!("{}", t.self_ty())), esc(&loc)));
            }
            _ => {}
        }
    }
    format!("{{\"fns\":[\n{}],\n\"adts\":[\n{}],\n\"impls\":[\n{}]}}\n", fns.join(",\n"), adts.join(",\n"), impls.join(",\n"))
}

struct Cb { out: String, krate: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() == "essay_tensor" {
            if let Ok(f) = std::env::var("VD_API") { std::fs::write(f, api(tcx)).unwrap(); }
        }
        if tcx.crate_name(LOCAL_CRATE).as_str() != self.krate {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx, env: TypingEnv::fully_monomorphized(), tys: HashMap::new(), ty_json: vec![], insts: HashMap::new(),
            inst_list: vec![], queue: VecDeque::new(), fn_json: vec![], consts: HashMap::new(), interp_all: false,
        };
        let _ = &cx.consts;
        let mut roots = Vec::new();
        for def in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(def) != DefKind::Fn { continue; }
            let name = tcx.item_name(def.to_def_id());
            let path = tcx.def_path_str(def.to_def_id());
            if tcx.generics_of(def).count() != 0 {
                let g = tcx.generics_of(def);
                // lifetimes only are fine
                if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) || g.parent.is_some() { continue; }
            }
            let _ = name;
            let args = ty::GenericArgs::for_item(tcx, def.to_def_id(), |_, _| tcx.lifetimes.re_erased.into());
            let inst = Instance::new_raw(def.to_def_id(), args);
            let id = cx.inst(inst);
            roots.push(format!("{}:{}", esc(&path), id));
        }
        while let Some(id) = cx.queue.pop_front() {
            cx.process(id);
        }
        // types may have queued more instances
        while let Some(id) = cx.queue.pop_front() {
            cx.process(id);
        }
        let mut o = String::new();
        o.push_str("{\"roots\":{");
        o.push_str(&roots.join(","));
        o.push_str("},\n\"types\":[\n");
        o.push_str(&cx.ty_json.join(",\n"));
        o.push_str("],\n\"fns\":[\n");
        let fj: Vec<String> = cx.fn_json.into_iter().map(|x| x.1).collect();
        o.push_str(&fj.join(",\n"));
        o.push_str("]}\n");
        std::fs::write(&self.out, o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: mirdump <rustc> args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("VD_OUT").unwrap_or_default();
    let krate = std::env::var("VD_CRATE").unwrap_or_default();
    let mut cb = Cb { out, krate };
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    code
}
