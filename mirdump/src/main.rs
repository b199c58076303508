// mirdump: a rustc driver that writes the MIR of every function of one crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER; MIRDUMP_OUT names the output file, MIRDUMP_CRATE the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(js(&format!("const {}", self.cst_len(c)))),
                _ => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn cst_len(&self, c: ty::Const<'tcx>) -> String {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            n.to_string()
        } else {
            format!("{}", c)
        }
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let fs: Vec<String> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(self.tcx, i).val)
            } else {
                "0".into()
            };
            vs.push(format!("[{},{},[{}]]", js(v.name.as_str()), discr, fs.join(",")));
        }
        let k = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        let s = format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}", k, d.is_local(), vs.join(","));
        self.adts.insert(d, s);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = match *t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(k) => format!("[\"int\",{}]", js(k.name_str())),
            ty::Uint(k) => format!("[\"int\",{}]", js(k.name_str())),
            ty::Float(k) => format!("[\"float\",{}]", js(k.name_str())),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Adt(d, a) => {
                self.adt(d.did());
                let p = self.path(d.did());
                format!("[\"adt\",{},{}]", js(&p), self.args(a))
            }
            ty::Array(e, n) => {
                let n = self.cst_len(n);
                format!("[\"array\",{},{}]", self.ty(e), js(&n))
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
            ty::RawPtr(e, m) => format!("[\"ptr\",{},{}]", self.ty(e), m.is_mut()),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), m.is_mut()),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"tuple\",[{}]]", v.join(","))
            }
            ty::Param(p) => format!("[\"param\",{}]", js(p.name.as_str())),
            ty::Closure(d, _) => {
                let p = self.path(d);
                let k = match t.kind() {
                    ty::Closure(_, a) => format!("{:?}", a.as_closure().kind_ty()),
                    _ => String::new(),
                };
                format!("[\"closure\",{},{}]", js(&p), js(&k))
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let p = self.path(d);
                format!("[\"fndef\",{},{},{}]", js(&p), self.args(a), self.callee(d, a))
            }
            _ => format!("[\"other\",{}]", js(&with_no_trimmed_paths!(format!("{}", t)))),
        };
        self.types[i] = s;
        i
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut tr = "null".to_string();
        let mut selfty = "null".to_string();
        let mut ctor = "null".to_string();
        match tcx.def_kind(d) {
            DefKind::AssocFn => {
                let par = tcx.parent(d);
                match tcx.def_kind(par) {
                    DefKind::Trait => {
                        tr = js(&self.path(par));
                        selfty = self.ty(a.type_at(0)).to_string();
                    }
                    DefKind::Impl { .. } => {
                        let st = tcx.type_of(par).instantiate(tcx, a).skip_normalization();
                        selfty = self.ty(st).to_string();
                        if let Some(t) = tcx.impl_opt_trait_ref(par) {
                            tr = js(&self.path(t.skip_binder().def_id));
                        }
                    }
                    _ => {}
                }
            }
            DefKind::Ctor(..) => {
                let par = tcx.parent(d);
                let (adt_id, vname) = match tcx.def_kind(par) {
                    DefKind::Variant => (tcx.parent(par), tcx.item_name(par).to_string()),
                    _ => (par, tcx.item_name(par).to_string()),
                };
                self.adt(adt_id);
                ctor = format!("[{},{}]", js(&self.path(adt_id)), js(&vname));
            }
            _ => {}
        }
        let mut res = "null".to_string();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, a) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    res = format!("[{},{},{}]", js(&self.path(rd)), rd.is_local(), self.args(inst.args));
                }
            }
        }
        let args = self.args(a);
        format!(
            "{{\"path\":{},\"name\":{},\"trait\":{},\"self\":{},\"ctor\":{},\"res\":{},\"args\":{},\"local\":{}}}",
            js(&p), js(&name), tr, selfty, ctor, res, args, d.is_local()
        )
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.index()),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn konst(&mut self, c: &Const<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"ty\":{},\"k\":\"fn\"}}", ti);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"ty\":{},\"k\":\"promoted\",\"of\":{},\"i\":{}}}", ti, js(&self.path(u.def)), p.index());
            }
        }
        let ev = if let Const::Unevaluated(u, _) = c {
            use rustc_middle::ty::TypeVisitableExt;
            if u.args.has_param() { None } else { c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok() }
        } else {
            c.eval(tcx, self.env, rustc_span::DUMMY_SP).ok()
        };
        if let Some(v) = ev {
            match v {
                ConstValue::ZeroSized => return format!("{{\"ty\":{},\"k\":\"zst\"}}", ti),
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let b = i.to_bits_unchecked();
                    let s = match t.kind() {
                        ty::Int(_) => i.to_int(i.size()).to_string(),
                        _ => b.to_string(),
                    };
                    return format!("{{\"ty\":{},\"k\":\"int\",\"v\":{},\"size\":{}}}", ti, s, i.size().bytes());
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => {
                            return format!("{{\"ty\":{},\"k\":\"static\",\"path\":{}}}", ti, js(&self.path(d)));
                        }
                        GlobalAlloc::Memory(m) => {
                            let a = m.inner();
                            if a.provenance().ptrs().is_empty() {
                                let b: Vec<String> = a
                                    .inspect_with_uninit_and_ptr_outside_interpreter(0..a.len())
                                    .iter().map(|x| x.to_string()).collect();
                                return format!("{{\"ty\":{},\"k\":\"mem\",\"off\":{},\"bytes\":[{}]}}", ti, off.bytes(), b.join(","));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        let is_str = matches!(t.kind(), ty::Ref(_, e, _) if e.is_str());
                        if is_str {
                            return format!("{{\"ty\":{},\"k\":\"str\",\"v\":{}}}", ti, js(&String::from_utf8_lossy(b)));
                        }
                        let b: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("{{\"ty\":{},\"k\":\"bytes\",\"v\":[{}]}}", ti, b.join(","));
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let a = m.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b: Vec<String> = a
                                .inspect_with_uninit_and_ptr_outside_interpreter(0..a.len())
                                .iter().map(|x| x.to_string()).collect();
                            return format!("{{\"ty\":{},\"k\":\"indirect\",\"off\":{},\"bytes\":[{}]}}", ti, offset.bytes(), b.join(","));
                        }
                    }
                }
            }
        }
        match c {
            Const::Unevaluated(u, _) => {
                let p = self.path(u.def);
                let a = self.args(u.args);
                let tr = if tcx.opt_parent(u.def).map_or(false, |q| tcx.def_kind(q) == DefKind::Trait) {
                    js(&self.path(tcx.parent(u.def)))
                } else { "null".into() };
                format!("{{\"ty\":{},\"k\":\"uneval\",\"path\":{},\"name\":{},\"trait\":{},\"local\":{},\"args\":{}}}", ti, js(&p),
                    js(tcx.opt_item_name(u.def).map(|s| s.to_string()).unwrap_or_default().as_str()), tr, u.def.is_local(), a)
            }
            Const::Ty(_, k) => format!("{{\"ty\":{},\"k\":\"tyconst\",\"v\":{}}}", ti, js(&self.cst_len(*k))),
            _ => {
                let _ = owner;
                format!("{{\"ty\":{},\"k\":\"unknown\"}}", ti)
            }
        }
    }
    fn op(&mut self, o: &Operand<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, owner)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", r.value(self.tcx.sess)),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, owner)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o, owner), js(&self.cst_len(*n))),
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", matches!(b, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o, owner), self.ty(*t)),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(&ops.0, owner), self.op(&ops.1, owner)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o, owner)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|x| self.op(x, owner)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        self.adt(*d);
                        let p = self.path(*d);
                        format!("[\"adt\",{},{},{}]", js(&p), v.index(), af.map(|x| x.index().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.path(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, f.join(","))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p))
            }
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body(&mut self, key: &str, owner: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let tys: Vec<String> = b.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(&p)));
            }
        }
        let sp = tcx.sess.source_map().span_to_diagnostic_string(b.span);
        let kind = format!("{:?}", tcx.def_kind(owner));
        let mut gens = vec![];
        let mut gd = Some(tcx.typeck_root_def_id(owner));
        while let Some(g) = gd {
            let gg = tcx.generics_of(g);
            let mut part = vec![];
            for p in gg.own_params.iter() {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    part.push(js(p.name.as_str()));
                }
            }
            part.extend(gens);
            gens = part;
            gd = gg.parent;
        }
        let _ = write!(o, "{{\"id\":{},\"kind\":{},\"span\":{},\"generics\":[{}],\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[",
            js(key), js(&kind), js(&sp), gens.join(","), b.arg_count, b.spread_arg.map(|x| x.index() as i64).unwrap_or(-1), tys.join(","), names.join(","));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.index() > 0 { o.push(','); }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => ss.push(format!("[\"=\",{},{}]", self.place(&x.0), self.rvalue(&x.1, owner))),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.index())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => ss.push("[\"other\"]".into()),
                    },
                    StatementKind::StorageLive(_) | StatementKind::StorageDead(_) | StatementKind::Nop | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..) | StatementKind::AscribeUserType(..) | StatementKind::Coverage(..) | StatementKind::ConstEvalCounter
                    | StatementKind::BackwardIncompatibleDropHint { .. } => {}
                    #[allow(unreachable_patterns)]
                    _ => ss.push("[\"other\"]".into()),
                }
            }
            let term = bb.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(term.source_info.span.source_callsite().lo()).line;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.index())).collect();
                    format!("[\"switch\",{},[{}],{}]", self.op(discr, owner), v.join(","), targets.otherwise().index())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, owner)).collect();
                    format!("[\"call\",{},[{}],{},{}]", self.op(func, owner), a.join(","), self.place(destination), target.map(|x| x.index().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.op(cond, owner), expected, m, target.index())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"l\":{}{}}}", ss.join(","), t, line, if bb.is_cleanup { ",\"cl\":1" } else { "" });
        }
        o.push_str("]}");
        o
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), env: ty::TypingEnv::fully_monomorphized() };
        let mut bodies = vec![];
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let id = k.to_def_id();
            let key = d.path(id);
            d.env = ty::TypingEnv::post_analysis(tcx, id);
            match tcx.def_kind(id) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(id);
                    bodies.push(d.body(&key, id, b));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(id);
                    bodies.push(d.body(&key, id, b));
                }
                _ => continue,
            }
            for (i, b) in tcx.promoted_mir(id).iter_enumerated() {
                bodies.push(d.body(&format!("{}::promoted[{}]", key, i.index()), id, b));
            }
        }
        // local trait impls
        let mut impls = vec![];
        for tid in tcx.all_local_trait_impls(()).keys().copied().collect::<Vec<_>>() {
            for im in tcx.all_local_trait_impls(())[&tid].iter() {
                let iid = im.to_def_id();
                let st = tcx.type_of(iid).instantiate_identity().skip_normalization();
                let sti = d.ty(st);
                let ms: Vec<String> = tcx.associated_items(iid).in_definition_order()
                    .map(|a| format!("[{},{}]", js(a.name().as_str()), js(&d.path(a.def_id)))).collect();
                impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":[{}]}}", js(&d.path(tid)), sti, ms.join(",")));
            }
        }
        let mut o = String::new();
        o.push_str("{\"bodies\":[\n");
        o.push_str(&bodies.join(",\n"));
        o.push_str("\n],\"impls\":[");
        o.push_str(&impls.join(",\n"));
        o.push_str("],\"types\":[");
        o.push_str(&d.types.join(",\n"));
        o.push_str("],\"adts\":{");
        let ads: Vec<(DefId, String)> = d.adts.iter().map(|(a, b)| (*a, b.clone())).collect();
        let v: Vec<String> = ads.iter().map(|(k, s)| format!("{}:{}", js(&d.path(*k)), s)).collect();
        o.push_str(&v.join(",\n"));
        let _ = write!(o, "}},\"debug_assertions\":{},\"overflow_checks\":{}}}\n", tcx.sess.opts.debug_assertions, tcx.sess.overflow_checks());
        std::fs::write(&self.out, o).expect("write MIRDUMP_OUT");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1); // the rustc path handed over by cargo
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.iter().any(|a| a == "lib" || a == "rlib") || args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if name == want && is_lib && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zub-checks=no".into()); // compiler-inserted pointer checks; the crate has no unsafe code
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
