use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Write as _;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: FxHashMap<DefId, (Body<'tcx>, rustc_index::IndexVec<Promoted, Body<'tcx>>)>,
    tys: FxHashMap<Ty<'tcx>, usize>,
    tyjson: Vec<Option<String>>,
    tyq: VecDeque<(Ty<'tcx>, usize, TypingEnv<'tcx>, String)>,
    insts: FxHashMap<String, ()>,
    instq: VecDeque<(Instance<'tcx>, Option<Promoted>, TypingEnv<'tcx>, String, String)>,
    bodies: Vec<(String, String)>,
    files: Vec<String>,
    crates: BTreeSet<String>,
}

const INLINE: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow",
    "core::ops::try_trait",
    "core::task::poll",
    "core::bool",
    "core::convert",
    "bip324::",
];

impl<'tcx> D<'tcx> {
    fn vpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn short_ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.tcx.item_name(a.did()).to_string(),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::RawPtr(..) => "ptr".into(),
            ty::Ref(_, t, _) => format!("&{}", self.short_ty(*t)),
            ty::Tuple(..) => "tuple".into(),
            ty::Closure(..) => "closure".into(),
            ty::Coroutine(..) => "coroutine".into(),
            ty::Dynamic(..) => "dyn".into(),
            ty::FnDef(..) => "fndef".into(),
            ty::Param(p) => p.name.to_string(),
            _ => t.to_string(),
        }
    }
    /// crate::Owner::name
    fn canon(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let k = tcx.crate_name(d.krate).to_string();
        self.crates.insert(k.clone());
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{anon}".into());
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } => {
                let p = tcx.parent(d);
                match tcx.def_kind(p) {
                    DefKind::Trait => format!("{}::{}::{}", k, tcx.item_name(p), name),
                    DefKind::Impl { of_trait: true } => {
                        let tr = tcx.impl_trait_ref(p).skip_binder();
                        let s = self.short_ty(tr.self_ty());
                        format!("{}::<{} as {}>::{}", k, s, tcx.item_name(tr.def_id), name)
                    }
                    _ => {
                        let st = tcx.type_of(p).skip_binder();
                        let s = self.short_ty(st);
                        format!("{}::{}::{}", k, s, name)
                    }
                }
            }
            DefKind::Ctor(..) => {
                let p = tcx.parent(d);
                format!("{}::{}::ctor", k, tcx.item_name(p))
            }
            DefKind::Closure => {
                let mut p = tcx.typeck_root_def_id(d);
                if tcx.opt_item_name(p).is_none() {
                    p = tcx.parent(p);
                }
                format!("{}::{}::closure", k, tcx.opt_item_name(p).map(|s| s.to_string()).unwrap_or_default())
            }
            _ => {
                let p = tcx.parent(d);
                let pn = tcx.opt_item_name(p).map(|s| s.to_string()).unwrap_or_else(|| "crate".into());
                format!("{}::{}::{}", k, pn, name)
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, root: &str) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyjson.len();
        self.tys.insert(t, i);
        self.tyjson.push(None);
        self.tyq.push_back((t, i, env, root.to_string()));
        i
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str) -> Option<String> {
        let d = match i.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        let islocal = self.local.contains_key(&d);
        if !islocal {
            if d.is_local() {
                return None;
            }
            let p = self.vpath(d);
            if !INLINE.iter().any(|x| p.starts_with(x)) {
                return None;
            }
            if !self.tcx.is_mir_available(d) || !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                return None;
            }
            if matches!(self.tcx.def_kind(d), DefKind::Closure) && self.tcx.is_coroutine(d) {
                return None;
            }
        }
        let mut key = self.tcx.def_path_str_with_args(d, i.args);
        if i.args.has_param() {
            key = format!("{}@{}", key, root);
        }
        if self.insts.insert(key.clone(), ()).is_none() {
            self.instq.push_back((i, None, env, root.to_string(), key.clone()));
        }
        Some(key)
    }

    fn span(&mut self, s: Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        let fi = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        format!("[{},{}]", fi, loc.line)
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"D\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"F\",{},{}]", f.index(), self.ty(t, env, root)),
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"C\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"S\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"V\",{}]", v.index()),
                _ => "\"X\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }

    fn cv(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        if depth > 8 {
            return "[\"?\",\"deep\"]".into();
        }
        let size_of = |t: Ty<'tcx>| tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size);
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                let sc = match v {
                    ConstValue::Scalar(interpret::Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let a = tcx.global_alloc(alloc_id);
                        if let interpret::GlobalAlloc::Memory(m) = a {
                            let sz = size_of(t).unwrap();
                            match m.inner().read_scalar(&tcx, interpret::alloc_range(offset, sz), false) {
                                Ok(interpret::Scalar::Int(i)) => Some(i),
                                _ => None,
                            }
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                match sc {
                    Some(i) => {
                        let bits = i.to_bits(i.size());
                        match t.kind() {
                            ty::Bool => format!("[\"b\",{}]", if bits != 0 { "true" } else { "false" }),
                            ty::Int(_) => format!("[\"i\",{}]", i.size().sign_extend(bits)),
                            _ => format!("[\"i\",{}]", bits),
                        }
                    }
                    None => "[\"?\",\"scalar\"]".into(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let (aid, off, len): (interpret::AllocId, rustc_abi::Size, Option<u64>) = match v {
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        (prov.alloc_id(), off, None)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        // a pointer stored in memory
                        let a = tcx.global_alloc(alloc_id);
                        if let interpret::GlobalAlloc::Memory(m) = a {
                            let ps = tcx.data_layout.pointer_size();
                            match m.inner().read_scalar(&tcx, interpret::alloc_range(offset, ps), true) {
                                Ok(interpret::Scalar::Ptr(p, _)) => {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    let len = match inner.kind() {
                                        ty::Str | ty::Slice(_) => {
                                            match m.inner().read_scalar(&tcx, interpret::alloc_range(offset + ps, ps), false) {
                                                Ok(interpret::Scalar::Int(i)) => Some(i.to_bits(i.size()) as u64),
                                                _ => return "[\"?\",\"fatptr\"]".into(),
                                            }
                                        }
                                        _ => None,
                                    };
                                    (prov.alloc_id(), off, len)
                                }
                                _ => return "[\"?\",\"ptrmem\"]".into(),
                            }
                        } else {
                            return "[\"?\",\"ptrmem\"]".into();
                        }
                    }
                    _ => return "[\"?\",\"ref\"]".into(),
                };
                let mem = match tcx.global_alloc(aid) {
                    interpret::GlobalAlloc::Memory(m) => m,
                    interpret::GlobalAlloc::Static(d) => {
                        return format!("[\"static\",{}]", esc(&self.vpath(d)));
                    }
                    _ => return "[\"?\",\"alloc\"]".into(),
                };
                match inner.kind() {
                    ty::Str => {
                        let b = mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                            off.bytes_usize()..off.bytes_usize() + len.unwrap_or(0) as usize,
                        );
                        format!("[\"s\",{}]", esc(&String::from_utf8_lossy(b)))
                    }
                    ty::Slice(e) => {
                        let Some(es) = size_of(*e) else { return "[\"?\",\"es\"]".into() };
                        let n = len.unwrap_or(0);
                        let mut o = vec![];
                        for i in 0..n.min(4096) {
                            o.push(self.cv(ConstValue::Indirect { alloc_id: aid, offset: off + es * i }, *e, depth + 1));
                        }
                        format!("[\"slice\",{}]", arr(o))
                    }
                    ty::Dynamic(..) | ty::Foreign(..) => "[\"?\",\"dyn\"]".into(),
                    _ => {
                        if !inner.is_sized(tcx, env) {
                            return "[\"?\",\"unsized\"]".into();
                        }
                        let s = size_of(*inner);
                        let iv = if s == Some(rustc_abi::Size::ZERO) {
                            ConstValue::ZeroSized
                        } else {
                            ConstValue::Indirect { alloc_id: aid, offset: off }
                        };
                        format!("[\"ref\",{}]", self.cv(iv, *inner, depth + 1))
                    }
                }
            }
            ty::FnDef(..) => "[\"z\"]".into(),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if n > 4096 {
                    return "[\"?\",\"bigarr\"]".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<_> = d.fields.to_vec();
                        let o: Vec<String> = f.into_iter().map(|(v, t)| self.cv(v, t, depth + 1)).collect();
                        format!("[\"arr\",{}]", arr(o))
                    }
                    None => {
                        let _ = e;
                        "[\"?\",\"arr\"]".into()
                    }
                }
            }
            ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return "[\"?\",\"union\"]".into();
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<_> = d.fields.to_vec();
                        let o: Vec<String> = f.into_iter().map(|(v, t)| self.cv(v, t, depth + 1)).collect();
                        format!(
                            "[\"agg\",{},{}]",
                            d.variant.map(|v| v.index().to_string()).unwrap_or("null".into()),
                            arr(o)
                        )
                    }
                    None => "[\"?\",\"adt\"]".into(),
                }
            }
            _ => match v {
                ConstValue::ZeroSized => "[\"z\"]".into(),
                _ => "[\"?\",\"other\"]".into(),
            },
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, root: &str, span: Span) -> String {
        let t = c.ty();
        let ti = self.ty(t, env, root);
        let val = match c.eval(self.tcx, env, span) {
            Ok(v) => {
                if t.has_param() || t.has_aliases() {
                    "[\"?\",\"generic\"]".to_string()
                } else {
                    self.cv(v, t, 0)
                }
            }
            Err(_) => {
                if matches!(t.kind(), ty::FnDef(..)) {
                    "[\"z\"]".to_string()
                } else if let Const::Unevaluated(u, _) = c {
                    if let Some(p) = u.promoted {
                        let i = Instance::new_raw(u.def, u.args);
                        let key = format!("{}#p{}@{}", self.tcx.def_path_str_with_args(u.def, u.args), p.index(), root);
                        if self.insts.insert(key.clone(), ()).is_none() {
                            self.instq.push_back((i, Some(p), env, root.to_string(), key.clone()));
                        }
                        format!("[\"prom\",{}]", esc(&key))
                    } else {
                        format!("[\"uneval\",{}]", esc(&self.tcx.def_path_str_with_args(u.def, u.args)))
                    }
                } else {
                    "[\"?\",\"eval\"]".to_string()
                }
            }
        };
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                extra = format!(",\"d\":{}", esc(&self.vpath(u.def)));
            }
        }
        format!("{{\"t\":{},\"v\":{}{}}}", ti, val, extra)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, env, root)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, env, root)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, env, root, c.span)),
            #[allow(unreachable_patterns)]
            _ => "[\"rc\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, env, root)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.op(o, env, root), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, env, root)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p, env, root)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let o = self.op(o, env, root);
                let t = self.ty(*t, env, root);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, t)
            }
            Rvalue::BinaryOp(b, ab) => {
                let (a, bb) = &**ab;
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(a, env, root), self.op(bb, env, root))
            }
            Rvalue::UnaryOp(u, a) => format!("[\"un\",\"{:?}\",{}]", u, self.op(a, env, root)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p, env, root)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"arr\",{}]", self.ty(*t, env, root)),
                    AggregateKind::Tuple => "[\"tup\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, act) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t, env, root),
                            v.index(),
                            act.map(|a| a.index().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"clo\",{}]", self.ty(t, env, root))
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        format!("[\"cor\",{}]", self.ty(t, env, root))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t, env, root)),
                    _ => "[\"x\"]".to_string(),
                };
                let o: Vec<String> = ops.iter().map(|o| self.op(o, env, root)).collect();
                format!("[\"agg\",{},{}]", ks, arr(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, env, root)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, env, root)),
            _ => format!("[\"x\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, d: DefId, env: TypingEnv<'tcx>, root: &str) -> String {
        let mut o = String::new();
        let mut names: FxHashMap<usize, String> = FxHashMap::default();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.entry(l.index()).or_insert_with(|| v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in b.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty, env, root);
            let n = names.get(&l.index()).map(|n| esc(n)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let kind = match self.tcx.def_kind(d) {
            DefKind::Closure => {
                if self.tcx.is_coroutine(d) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            _ => "fn",
        };
        let canon = self.canon(d);
        let vp = self.vpath(d);
        let sp = self.span(b.span);
        let _ = write!(
            o,
            "{{\"kind\":\"{}\",\"name\":{},\"path\":{},\"def\":{},\"local\":{},\"argc\":{},\"spread\":{},\"span\":{},\"locals\":{},\"blocks\":[",
            kind,
            esc(&canon),
            esc(&self.tcx.def_path_str(d)),
            esc(&vp),
            d.is_local(),
            b.arg_count,
            b.spread_arg.map(|l| l.index().to_string()).unwrap_or("null".into()),
            sp,
            arr(locals)
        );
        let mut first = true;
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            if !first {
                o.push(',');
            }
            first = false;
            let mut st = vec![];
            for s in &data.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let ps = self.place(p, env, root);
                        let rs = self.rvalue(r, env, root);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place, env, root), variant_index.index(), sp));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.index())),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&b.local_decls, self.tcx);
                    let tid = self.ty(t, env, root);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    format!(
                        "[\"sw\",{},{},{},{}]",
                        self.op(discr, env, root),
                        arr(v),
                        targets.otherwise().index(),
                        tid
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, env, root), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env, root);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, env, root)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination, env, root),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("BoundsCheck".into(), vec![self.op(len, env, root), self.op(index, env, root)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("Overflow({:?})", op), vec![self.op(a, env, root), self.op(b, env, root)])
                        }
                        AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.op(a, env, root)]),
                        AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![self.op(a, env, root)]),
                        AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![self.op(a, env, root)]),
                        o => (format!("{:?}", o).chars().take(30).collect(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.op(cond, env, root),
                        expected,
                        esc(&k),
                        arr(ops),
                        target.index()
                    )
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                    "[\"yield\",{},{},{}]",
                    self.op(value, env, root),
                    resume.index(),
                    self.place(resume_arg, env, root)
                ),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                _ => "[\"x\"]".into(),
            };
            let _ = write!(
                o,
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}",
                arr(st),
                ts,
                sp,
                data.is_cleanup
            );
        }
        o.push_str("]}");
        o
    }

    fn emit_ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let tcx = self.tcx;
        let s = esc(&t.to_string());
        match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"n\":{}}}", i.bit_width().unwrap_or(64), esc(i.name_str())),
            ty::Uint(i) => format!("{{\"k\":\"uint\",\"w\":{},\"n\":{}}}", i.bit_width().unwrap_or(64), esc(i.name_str())),
            ty::Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", s),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Ref(_, i, m) => format!("{{\"k\":\"ref\",\"mut\":{},\"to\":{},\"s\":{}}}", m.is_mut(), self.ty(i, env, root), s),
            ty::RawPtr(i, m) => format!("{{\"k\":\"ptr\",\"mut\":{},\"to\":{},\"s\":{}}}", m.is_mut(), self.ty(i, env, root), s),
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{},\"s\":{}}}", self.ty(e, env, root), s),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{},\"s\":{}}}", self.ty(e, env, root), n, s)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env, root).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"e\":{},\"s\":{}}}", arr(v), s)
            }
            ty::Adt(a, args) => {
                let kr = tcx.crate_name(a.did().krate).to_string();
                self.crates.insert(kr.clone());
                let av: Vec<String> = args.types().map(|x| self.ty(x, env, root).to_string()).collect();
                let kind = if a.is_enum() {
                    "enum"
                } else if a.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let vp = self.vpath(a.did());
                let expand = a.is_enum() || a.did().is_local() || kr == "bip324"
                    || vp.starts_with("core::ops::range") || vp.starts_with("core::pin")
                    || vp.starts_with("core::io::error") || vp.starts_with("core::num::wrapping");
                let mut vs = vec![];
                if expand {
                    for (vi, v) in a.variants().iter_enumerated() {
                        let discr = if a.is_enum() {
                            format!("{}", a.discriminant_for_variant(tcx, vi).val)
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(tcx, args);
                            let ft = match tcx.try_normalize_erasing_regions(env, ft) {
                                Ok(t) => t,
                                Err(_) => f.ty(tcx, args).skip_norm_wip(),
                            };
                            let vis = format!("{:?}", f.vis);
                            let vis = if f.vis.is_public() { "pub".to_string() } else { vis };
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), self.ty(ft, env, root), esc(&vis)));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), discr, arr(fs)));
                    }
                }
                let drop = tcx.adt_destructor(a.did()).is_some();
                format!(
                    "{{\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"name\":{},\"crate\":{},\"args\":{},\"exp\":{},\"variants\":{},\"drop\":{},\"s\":{}}}",
                    kind,
                    esc(&vp),
                    esc(tcx.item_name(a.did()).as_str()),
                    esc(&kr),
                    arr(av),
                    expand,
                    arr(vs),
                    drop,
                    s
                )
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let d: DefId = d.into();
                let name = self.canon(d);
                let args = tcx.erase_and_anonymize_regions(args);
                let av: Vec<String> = args.types().map(|x| self.ty(x, env, root).to_string()).collect();
                let is_trait = tcx.trait_of_assoc(d).is_some();
                let ctor = matches!(tcx.def_kind(d), DefKind::Ctor(_, CtorKind::Fn));
                let mut key = "null".to_string();
                let mut iname = "null".to_string();
                let mut ik = "none".to_string();
                let mut ret_never = false;
                if !ctor {
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                        ik = match i.def {
                            InstanceKind::Item(_) => "item".into(),
                            InstanceKind::Intrinsic(_) => "intrinsic".into(),
                            InstanceKind::Virtual(..) => "virtual".into(),
                            ref o => format!("{:?}", o).chars().take(24).collect(),
                        };
                        if let InstanceKind::Item(d2) = i.def {
                            iname = esc(&self.canon(d2));
                            if let Some(k) = self.inst(i, env, root) {
                                key = esc(&k);
                            }
                        }
                    }
                    ret_never = tcx.fn_sig(d).skip_binder().output().skip_binder().is_never();
                }
                let ctorinfo = if ctor {
                    let p = tcx.parent(d);
                    let vi = match tcx.def_kind(p) {
                        DefKind::Variant => {
                            let adt = tcx.adt_def(tcx.parent(p));
                            adt.variant_index_with_id(p).index()
                        }
                        _ => 0,
                    };
                    vi.to_string()
                } else {
                    "null".into()
                };
                let vp = self.vpath(d);
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let sig = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig)).unwrap_or(sig);
                let ret = self.ty(sig.output(), env, root);
                format!(
                    "{{\"k\":\"fndef\",\"name\":{},\"path\":{},\"crate\":{},\"args\":{},\"trait\":{},\"ctor\":{},\"inst\":{},\"iname\":{},\"ik\":{},\"never\":{},\"ret\":{},\"s\":{}}}",
                    esc(&name),
                    esc(&vp),
                    esc(tcx.crate_name(d.krate).as_str()),
                    arr(av),
                    is_trait,
                    ctorinfo,
                    key,
                    iname,
                    esc(&ik),
                    ret_never,
                    ret,
                    s
                )
            }
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                let i = Instance::new_raw(d, args);
                let key = self.inst(i, env, root).map(|k| esc(&k)).unwrap_or("null".into());
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env, root).to_string()).collect();
                format!("{{\"k\":\"closure\",\"inst\":{},\"up\":{},\"path\":{},\"s\":{}}}", key, arr(ups), esc(&self.vpath(d)), s)
            }
            ty::Coroutine(d, args) => {
                let d: DefId = d.into();
                let i = Instance::new_raw(d, args);
                let key = self.inst(i, env, root).map(|k| esc(&k)).unwrap_or("null".into());
                let ups: Vec<String> =
                    args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x, env, root).to_string()).collect();
                let ret = self.ty(args.as_coroutine().return_ty(), env, root);
                format!(
                    "{{\"k\":\"coroutine\",\"inst\":{},\"up\":{},\"ret\":{},\"path\":{},\"s\":{}}}",
                    key,
                    arr(ups),
                    ret,
                    esc(&self.vpath(d)),
                    s
                )
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"s\":{}}}", esc(p.name.as_str()), s),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", s),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", s),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        }
    }

    fn drain(&mut self) {
        loop {
            if let Some((t, i, env, root)) = self.tyq.pop_front() {
                let j = self.emit_ty(t, env, &root);
                self.tyjson[i] = Some(j);
                continue;
            }
            if let Some((i, prom, env, root, key)) = self.instq.pop_front() {
                let d = i.def_id();
                let body: Body<'tcx> = if let Some((b, ps)) = self.local.get(&d) {
                    match prom {
                        Some(p) => ps[p].clone(),
                        None => b.clone(),
                    }
                } else {
                    match prom {
                        Some(p) => self.tcx.promoted_mir(d)[p].clone(),
                        None => self.tcx.instance_mir(i.def).clone(),
                    }
                };
                let body = match i.try_instantiate_mir_and_normalize_erasing_regions(
                    self.tcx,
                    env,
                    EarlyBinder::bind(self.tcx, body.clone()),
                ) {
                    Ok(b) => b,
                    Err(_) => EarlyBinder::bind(self.tcx, body).instantiate(self.tcx, i.args).skip_norm_wip(),
                };
                let j = self.body(&body, d, env, &root);
                self.bodies.push((key, j));
                continue;
            }
            break;
        }
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // code of another crate's macro is that crate's; the crate's own macros are its own
            let own = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.map(|m| m.is_local()).unwrap_or(false);
            if !b.span.from_expansion() || own {
                self.out.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D {
        tcx,
        local: FxHashMap::default(),
        tys: FxHashMap::default(),
        tyjson: vec![],
        tyq: VecDeque::new(),
        insts: FxHashMap::default(),
        instq: VecDeque::new(),
        bodies: vec![],
        files: vec![],
        crates: BTreeSet::new(),
    };
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for &o in &owners {
        if matches!(tcx.def_kind(o), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let (b, p) = tcx.mir_promoted(o);
            let b = b.borrow().clone();
            let p = p.borrow().clone();
            d.local.insert(o.to_def_id(), (b, p));
        }
    }
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut adts = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    for &o in &owners {
        let did = o.to_def_id();
        match tcx.def_kind(o) {
            DefKind::Fn | DefKind::AssocFn => {
                let env = TypingEnv::post_analysis(tcx, did);
                let root = d.vpath(did);
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let i = Instance::new_raw(did, args);
                let key = d.inst(i, env, &root).unwrap_or_default();
                let name = d.canon(did);
                let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
                let ins: Vec<String> = sig.inputs().iter().map(|t| d.ty(*t, env, &root).to_string()).collect();
                let outp = d.ty(sig.output(), env, &root);
                let sp = d.span(tcx.def_span(did));
                let selfty = match tcx.opt_parent(did) {
                    Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                        d.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip(), env, &root).to_string()
                    }
                    _ => "null".into(),
                };
                fns.push(format!(
                    "{{\"key\":{},\"name\":{},\"path\":{},\"exported\":{},\"ins\":{},\"out\":{},\"async\":{},\"unsafe\":{},\"span\":{},\"selfty\":{},\"vpath\":{},\"sig\":{},\"extern\":{}}}",
                    esc(&key),
                    esc(&name),
                    esc(&tcx.def_path_str(did)),
                    ev.is_exported(o) || ev.is_reachable(o),
                    arr(ins),
                    outp,
                    tcx.asyncness(did).is_async(),
                    sig.safety().is_unsafe(),
                    sp,
                    selfty,
                    esc(&root),
                    esc(&format!(
                        "{} where {}",
                        tcx.fn_sig(did).instantiate_identity().skip_norm_wip(),
                        tcx.param_env(did).caller_bounds().map(|p| p.to_string()).collect::<Vec<_>>().join(", ")
                    )),
                    tcx.codegen_fn_attrs(did).contains_extern_indicator()
                ));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let env = TypingEnv::post_analysis(tcx, did);
                let root = d.vpath(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let v = match tcx.const_eval_poly(did) {
                    Ok(v) => d.cv(v, t, 0),
                    Err(_) => "[\"?\",\"eval\"]".into(),
                };
                let ti = d.ty(t, env, &root);
                consts.push(format!("{{\"path\":{},\"t\":{},\"v\":{}}}", esc(&root), ti, v));
            }
            DefKind::Static { mutability, .. } => {
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "[{},{},{},{}]",
                    esc(&d.vpath(did)),
                    mutability.is_mut(),
                    t.is_freeze(tcx, env) && !tcx.is_thread_local_static(did),
                    esc(&t.to_string())
                ));
            }
            _ => {}
        }
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let env = TypingEnv::post_analysis(tcx, did);
            let root = d.vpath(did);
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let ti = d.ty(t, env, &root);
            let sp = d.span(tcx.def_span(did));
            adts.push(format!("{{\"path\":{},\"t\":{},\"exported\":{},\"span\":{}}}", esc(&root), ti, ev.is_exported(id) || ev.is_reachable(id), sp));
        }
    }
    let mut impls = vec![];
    for (tr, v) in tcx.all_local_trait_impls(()) {
        for im in v {
            let env = TypingEnv::post_analysis(tcx, im.to_def_id());
            let root = d.vpath(im.to_def_id());
            let r = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let st = d.ty(r.self_ty(), env, &root);
            let rest: Vec<String> = r.args.types().skip(1).map(|t| d.ty(t, env, &root).to_string()).collect();
            let sp = d.span(tcx.def_span(im.to_def_id()));
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"args\":{},\"derived\":{},\"span\":{},\"unsafe\":{}}}",
                esc(&d.vpath(*tr)),
                st,
                arr(rest),
                tcx.is_builtin_derived(im.to_def_id()),
                sp,
                tcx.impl_trait_header(im.to_def_id()).safety.is_unsafe()
            ));
        }
    }
    let foreign = tcx.hir_crate_items(()).definitions().filter(|id| matches!(tcx.def_kind(*id), DefKind::ForeignMod | DefKind::GlobalAsm)).count();
    let mut uv = UnsafeV { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let us: Vec<Span> = uv.out.clone();
    let unsafes: Vec<String> = us.into_iter().map(|s| d.span(s)).collect();
    d.drain();
    let crates: Vec<String> = d.crates.iter().map(|c| esc(c)).collect();
    let extern_all: Vec<String> = tcx
        .crates(())
        .iter()
        .map(|c| {
            let direct = tcx.extern_crate(*c).map(|e| e.is_direct()).unwrap_or(false);
            format!("[{},{}]", esc(tcx.crate_name(*c).as_str()), direct)
        })
        .collect();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"files\":{},\n\"fns\":{},\n\"adts\":{},\n\"consts\":{},\n\"statics\":{},\n\"impls\":{},\n\"unsafe\":{},\n\"crates\":{},\n\"extern\":{},\n\"foreign\":{},\n\"types\":[",
        esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        arr(d.files.iter().map(|f| esc(f))),
        arr(fns),
        arr(adts),
        arr(consts),
        arr(statics),
        arr(impls),
        arr(unsafes),
        arr(crates),
        arr(extern_all),
        foreign
    );
    for (i, t) in d.tyjson.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(t.as_deref().unwrap_or("null"));
    }
    o.push_str("],\n\"bodies\":{");
    for (i, (k, b)) in d.bodies.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let _ = write!(o, "{}:{}", esc(k), b);
    }
    o.push_str("}}\n");
    o
}

#[allow(dead_code)]
fn unused(_: &mir::Body<'_>) {}
