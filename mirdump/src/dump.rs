use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, DefId)>,
    stop: Vec<String>,
}

/// The path of an item where it is defined, never through a re-export.
fn ps(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)))
}

fn pp<T: ToString>(t: T) -> String {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()))
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    // MIRDUMP_ROOTS: newline separated keys, "*" = every function of the crate
    let want: Vec<String> = std::env::var("MIRDUMP_ROOTS").unwrap_or("*".into())
        .split('\n').map(|s| s.to_string()).collect();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP").unwrap_or_default()
        .split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), insts: HashMap::new(), queue: VecDeque::new(), stop };
    let mut roots = vec![];
    let mut all = vec![];
    for &ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::AssocConst { .. } => {}
            _ => continue,
        }
        if tcx.is_constructor(d) { continue; }
        let k = key(tcx, d);
        all.push(J::s(k.clone()));
        if !(want.iter().any(|w| w == "*" || *w == k)) { continue; }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(d, args);
        let rootd = tcx.typeck_root_def_id(d);
        let id = cx.inst_id(inst, rootd);
        roots.push(J::O(vec![("key", J::s(k)), ("fn", J::i(id))]));
    }
    let mut fns = vec![];
    while let Some((id, inst, root)) = cx.queue.pop_front() {
        let j = cx.body(inst, root);
        fns.push((id, j));
    }
    fns.sort_by_key(|x| x.0);
    let o = J::O(vec![
        ("roots", J::A(roots)),
        ("all", J::A(all)),
        ("fns", J::A(fns.into_iter().map(|x| x.1).collect())),
        ("types", J::A(std::mem::take(&mut cx.types))),
    ]);
    let mut s = String::new();
    o.write(&mut s);
    s
}

/// A short stable name: `Vector::push`, `<Vector as Drop>::drop`, `<Vector as From<[T; N]>>::from`,
/// `util::rotate`, `HashTable::rehash::{closure#1}`.
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    if tcx.is_closure_like(d) {
        let p = tcx.parent(d);
        let dp = tcx.def_path(d);
        let last = dp.data.last().unwrap();
        return format!("{}::{{closure#{}}}", key(tcx, p), last.disambiguator);
    }
    let p = match tcx.opt_parent(d) { Some(p) => p, None => return ps(tcx, d) };
    if let DefKind::Impl { .. } = tcx.def_kind(p) {
        let self_ty = tcx.type_of(p).instantiate_identity().skip_normalization();
        let sname = match self_ty.kind() {
            TyKind::Adt(a, _) => {
                let full = ps(tcx, a.did());
                full
            }
            _ => pp(self_ty),
        };
        let name = tcx.item_name(d);
        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
            let tr = tr.instantiate_identity().skip_normalization();
            let tname = tcx.item_name(tr.def_id).to_string();
            let targs: Vec<String> = tr.args.iter().skip(1).filter(|a| a.as_region().is_none()).map(|a| pp(a)).collect();
            // a trait implemented for several instances of a type: name the arguments of Self too
            let stxt = match self_ty.kind() {
                TyKind::Adt(_, args) if args.iter().any(|a| a.as_type().map_or(false, |t| !matches!(t.kind(), TyKind::Param(_)))) && sname.contains("DefaultHash") => pp(self_ty),
                _ => sname,
            };
            return format!("<{} as {}{}>::{}", stxt, tname,
                if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(", ")) }, name);
        }
        return format!("{}::{}", sname, name);
    }
    ps(tcx, d)
}

impl<'tcx> Cx<'tcx> {
    fn inst_id(&mut self, inst: Instance<'tcx>, root: DefId) -> usize {
        let needs_env = true;
        let k = (inst, if needs_env { Some(root) } else { None });
        if let Some(&i) = self.insts.get(&k) { return i; }
        let i = self.insts.len();
        self.insts.insert(k, i);
        self.queue.push_back((i, inst, root));
        i
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J { J::i(self.ty_id(t)) }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.types.len();
        self.tymap.insert(t, i);
        self.types.push(J::N);
        let tcx = self.tcx;
        let mut o = vec![("s", J::s(pp(t)))];
        match t.kind() {
            TyKind::Bool => o.push(("k", J::s("bool"))),
            TyKind::Char => o.push(("k", J::s("char"))),
            TyKind::Int(it) => { o.push(("k", J::s("int"))); o.push(("n", J::s(it.name_str()))); }
            TyKind::Uint(it) => { o.push(("k", J::s("int"))); o.push(("n", J::s(it.name_str()))); }
            TyKind::Float(f) => { o.push(("k", J::s("float"))); o.push(("n", J::s(f.name_str()))); }
            TyKind::Str => o.push(("k", J::s("str"))),
            TyKind::Never => o.push(("k", J::s("never"))),
            TyKind::Param(p) => { o.push(("k", J::s("param"))); o.push(("n", J::s(p.name.to_string()))); }
            TyKind::RawPtr(t2, m) => { o.push(("k", J::s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*t2); o.push(("to", x)); }
            TyKind::Ref(_, t2, m) => { o.push(("k", J::s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*t2); o.push(("to", x)); }
            TyKind::Slice(t2) => { o.push(("k", J::s("slice"))); let x = self.ty(*t2); o.push(("to", x)); }
            TyKind::Array(t2, n) => {
                o.push(("k", J::s("array"))); let x = self.ty(*t2); o.push(("to", x));
                o.push(("len", match n.try_to_target_usize(tcx) { Some(v) => J::I(v as i128), None => J::s(n.to_string()) }));
            }
            TyKind::Tuple(ts) => { o.push(("k", J::s("tuple"))); let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("elems", J::A(v))); }
            TyKind::FnDef(d, args) => { o.push(("k", J::s("fndef"))); o.push(("n", J::s(ps(tcx, *d)))); let a = self.args(args.no_bound_vars().unwrap()); o.push(("args", a)); }
            TyKind::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            TyKind::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("n", J::s(key(tcx, *d))));
                let ca = self.args(args); o.push(("args", ca));
                let v = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::A(v)));
            }
            TyKind::Adt(a, args) => {
                o.push(("k", J::s("adt")));
                o.push(("n", J::s(ps(tcx, a.did()))));
                o.push(("kind", J::s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })));
                let ar = self.args(args);
                o.push(("args", ar));
                let mut vs = vec![];
                for (vi, v) in a.variants().iter_enumerated() {
                    let discr = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_normalization();
                        let x = self.ty(ft);
                        fs.push(J::A(vec![J::s(f.name.to_string()), x]));
                    }
                    vs.push(J::O(vec![("name", J::s(v.name.to_string())), ("discr", J::I(discr)), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            _ => { o.push(("k", J::s("other"))); }
        }
        self.types[i] = J::O(o);
        i
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(self.ty(t)); }
            else if let Some(c) = a.as_const() { v.push(J::s(c.to_string())); }
        }
        J::A(v)
    }

    fn body(&mut self, inst: Instance<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let env = TypingEnv::post_analysis(tcx, root);
        let mut o = vec![
            ("key", J::s(key(tcx, d))),
            ("path", J::s(ps(tcx, d))),
            ("full", J::s(inst.to_string())),
            ("krate", J::s(tcx.crate_name(d.krate).to_string())),
            ("kind", J::s(match inst.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", _ => "shim" })),
            ("def", J::s(format!("{:?}", inst.def))),
        ];
        let a = self.args(inst.args);
        o.push(("args", a));
        o.push(("is_unsafe", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        let path = ps(tcx, d);
        let stopped = !d.is_local() && self.stop.iter().any(|s| {
            if let Some(p) = s.strip_suffix('*') { path.starts_with(p) } else { path == *s }
        });
        let has = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d) && !matches!(tcx.def_kind(d), DefKind::Ctor(..)),
            _ => false,
        };
        if stopped || !has {
            o.push(("body", J::N));
            return J::O(o);
        }
        let body = tcx.instance_mir(inst.def).clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => { o.push(("body", J::N)); return J::O(o); }
        };
        let sm = tcx.sess.source_map();
        let span = body.span;
        o.push(("span", J::s(sm.span_to_diagnostic_string(span))));
        o.push(("argc", J::i(body.arg_count)));
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() { names.entry(l).or_insert(v.name.to_string()); }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            locals.push(J::A(vec![t, names.get(&l).map_or(J::N, |s| J::s(s.clone()))]));
        }
        o.push(("locals", J::A(locals)));
        o.push(("spread", match body.spread_arg { Some(l) => J::i(l.as_usize()), None => J::N }));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    if let Some(j) = self.stmt(s, &body, env) {
                        let line = sm.lookup_char_pos(s.source_info.span.lo()).line;
                        ss.push(J::A(vec![J::i(line), j]));
                    }
                }
            }
            let t = bb.terminator();
            let line = sm.lookup_char_pos(t.source_info.span.lo()).line;
            let tj = if bb.is_cleanup { J::O(vec![("k", J::s("cleanup"))]) } else { self.term(t, &body, env, root) };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", tj), ("line", J::i(line))]));
        }
        o.push(("body", J::A(blocks)));
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(body, tcx);
            let j = match e {
                ProjectionElem::Deref => J::O(vec![("p", J::s("deref"))]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let mut o = vec![("p", J::s("field")), ("i", J::i(f.as_usize())), ("ty", t)];
                    if let TyKind::Adt(a, _) = bt.ty.kind() {
                        let vi = bt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        o.push(("n", J::s(a.variant(vi).fields[f].name.to_string())));
                    }
                    J::O(o)
                }
                ProjectionElem::Index(l) => J::O(vec![("p", J::s("index")), ("l", J::i(l.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![("p", J::s("cindex")), ("i", J::I(offset as i128)), ("from_end", J::B(from_end))]),
                ProjectionElem::Downcast(_, vi) => J::O(vec![("p", J::s("downcast")), ("v", J::i(vi.as_usize()))]),
                other => J::O(vec![("p", J::s("other")), ("d", J::s(format!("{:?}", other)))]),
            };
            v.push(j);
        }
        let t = self.ty(p.ty(body, tcx).ty);
        J::O(vec![("l", J::i(p.local.as_usize())), ("pr", J::A(v)), ("ty", t)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let p = self.place(p, body); J::O(vec![("o", J::s("copy")), ("p", p)]) }
            Operand::Move(p) => { let p = self.place(p, body); J::O(vec![("o", J::s("move")), ("p", p)]) }
            Operand::Constant(c) => self.constant(&c.const_, c.span, env),
            other => J::O(vec![("o", J::s("other")), ("d", J::s(format!("{:?}", other)))]),
        }
    }

    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId) -> Option<J> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if a.provenance().ptrs().is_empty() {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                    Some(J::O(vec![("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))]))
                } else { None }
            }
            GlobalAlloc::Static(d) => {
                let mut o = vec![("static", J::s(ps(self.tcx, d)))];
                if let Ok(a) = self.tcx.eval_static_initializer(d) {
                    let a = a.inner();
                    if a.provenance().ptrs().is_empty() && !a.mutability.is_mut() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                    }
                }
                Some(J::O(o))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: rustc_span::Span, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.ty(c.ty());
        let mut o = vec![("o", J::s("const")), ("ty", t), ("d", J::s(c.to_string()))];
        if let Const::Unevaluated(u, _) = c {
            o.push(("uneval", J::s(key(tcx, u.def))));
            let a = self.args(u.args);
            o.push(("uargs", a));
            if u.promoted.is_some() { o.push(("promoted", J::B(true))); }
        }
        if let Const::Ty(_, ct) = c { o.push(("tyconst", J::s(ct.to_string()))); }
        if let Ok(v) = c.eval(tcx, env, span) {
            match v {
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    o.push(("bits", J::S(bits.to_string())));
                }
                ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(b) = self.bytes_of(prov.alloc_id()) { o.push(("mem", b)); }
                    o.push(("off", J::I(off.bytes() as i128)));
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Indirect { alloc_id, .. } => { if let Some(b) = self.bytes_of(alloc_id) { o.push(("mem", b)); } o.push(("indirect", J::B(true))); }
                ConstValue::Slice { meta, .. } => { o.push(("slicelen", J::I(meta as i128))); }
            }
        }
        J::O(o)
    }

    fn stmt(&mut self, s: &Statement<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pj = self.place(p, body);
                let rj = self.rvalue(r, body, env);
                Some(J::O(vec![("s", J::s("assign")), ("p", pj), ("r", rj)]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(place, body);
                Some(J::O(vec![("s", J::s("setdiscr")), ("p", pj), ("v", J::i(variant_index.as_usize()))]))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => { let x = self.operand(op, body, env); Some(J::O(vec![("s", J::s("assume")), ("x", x)])) }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(&c.src, body, env); let b = self.operand(&c.dst, body, env); let n = self.operand(&c.count, body, env);
                    Some(J::O(vec![("s", J::s("copynonover")), ("src", a), ("dst", b), ("n", n)]))
                }
            },
            StatementKind::StorageLive(_) | StatementKind::StorageDead(_) | StatementKind::Nop
            | StatementKind::FakeRead(_) | StatementKind::PlaceMention(_) | StatementKind::Coverage(_)
            | StatementKind::ConstEvalCounter | StatementKind::AscribeUserType(..) => None,
            other => { let d = format!("{:?}", other); Some(J::O(vec![("s", J::s("other")), ("d", J::s(d))])) }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut o = vec![];
        match r {
            Rvalue::Use(op, ..) => { o.push(("r", J::s("use"))); let x = self.operand(op, body, env); o.push(("x", x)); }
            Rvalue::Ref(_, bk, p) => { o.push(("r", J::s("ref"))); o.push(("mut", J::B(bk.mutability().is_mut()))); let x = self.place(p, body); o.push(("p", x)); }
            Rvalue::RawPtr(k, p) => { o.push(("r", J::s("rawptr"))); o.push(("d", J::s(format!("{:?}", k)))); let x = self.place(p, body); o.push(("p", x)); }
            Rvalue::Cast(k, op, t) => {
                o.push(("r", J::s("cast"))); o.push(("c", J::s(format!("{:?}", k))));
                let x = self.operand(op, body, env); o.push(("x", x));
                let st = op.ty(body, self.tcx);
                let st = self.ty(st); o.push(("from", st));
                let t = self.ty(*t); o.push(("ty", t));
            }
            Rvalue::BinaryOp(b, ops) => {
                o.push(("r", J::s("bin"))); o.push(("op", J::s(format!("{:?}", b))));
                let x = self.operand(&ops.0, body, env); let y = self.operand(&ops.1, body, env);
                let t = ops.0.ty(body, self.tcx); let t = self.ty(t);
                o.push(("x", x)); o.push(("y", y)); o.push(("ty", t));
            }
            Rvalue::UnaryOp(u, op) => {
                o.push(("r", J::s("un"))); o.push(("op", J::s(format!("{:?}", u))));
                let x = self.operand(op, body, env); o.push(("x", x));
                let t = op.ty(body, self.tcx); let t = self.ty(t); o.push(("ty", t));
            }
            Rvalue::Discriminant(p) => { o.push(("r", J::s("discr"))); let x = self.place(p, body); o.push(("p", x)); }
            Rvalue::Aggregate(k, ops) => {
                o.push(("r", J::s("agg")));
                let t = r.ty(body, self.tcx); let t = self.ty(t);
                o.push(("ty", t));
                let (kind, variant) = match &**k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, f) => { if let Some(f) = f { o.push(("ufield", J::i(f.as_usize()))); } ("adt", v.as_usize()) }
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                o.push(("kind", J::s(kind))); o.push(("v", J::i(variant)));
                let v = ops.iter().map(|x| self.operand(x, body, env)).collect();
                o.push(("xs", J::A(v)));
            }
            Rvalue::Repeat(op, n) => {
                o.push(("r", J::s("repeat"))); let x = self.operand(op, body, env); o.push(("x", x)); o.push(("n", J::s(n.to_string())));
                let t = r.ty(body, self.tcx); let t = self.ty(t); o.push(("ty", t));
            }
            other => { o.push(("r", J::s("other"))); o.push(("d", J::s(format!("{:?}", other)))); }
        }
        J::O(o)
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { o.push(("k", J::s("goto"))); o.push(("to", J::i(target.as_usize()))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", J::s("switch")));
                let x = self.operand(discr, body, env); o.push(("x", x));
                let st = discr.ty(body, tcx); let st = self.ty(st); o.push(("ty", st));
                o.push(("cases", J::A(targets.iter().map(|(v, b)| J::A(vec![J::S(v.to_string()), J::i(b.as_usize())])).collect())));
                o.push(("otherwise", J::i(targets.otherwise().as_usize())));
            }
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", J::s("drop")));
                let ty = place.ty(body, tcx).ty;
                o.push(("needs", J::B(ty.needs_drop(tcx, env))));
                let p = self.place(place, body); o.push(("p", p)); o.push(("to", J::i(target.as_usize())));
                if let Some(id) = self.enqueue_drops(ty, root, 0) { o.push(("dropfn", J::i(id))); }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", J::s("call")));
                let ft = func.ty(body, tcx);
                if let TyKind::FnDef(d, fargs) = ft.kind() {
                    let f = self.callee(*d, fargs.no_bound_vars().unwrap(), env, root);
                    o.push(("f", f));
                } else {
                    let x = self.operand(func, body, env);
                    o.push(("fop", x));
                }
                let v = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                o.push(("args", J::A(v)));
                let v = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t) }).collect();
                o.push(("argtys", J::A(v)));
                let p = self.place(destination, body); o.push(("dest", p));
                o.push(("to", match target { Some(t) => J::i(t.as_usize()), None => J::N }));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", J::s("assert")));
                let x = self.operand(cond, body, env); o.push(("x", x)); o.push(("exp", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow neg".into(),
                    AssertKind::DivisionByZero(_) => "div by zero".into(),
                    AssertKind::RemainderByZero(_) => "rem by zero".into(),
                    AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                    AssertKind::NullPointerDereference => "null deref".into(),
                    _ => "other".into(),
                };
                o.push(("msg", J::s(m))); o.push(("to", J::i(target.as_usize())));
            }
            other => { o.push(("k", J::s("other"))); o.push(("d", J::s(format!("{:?}", other)))); }
        }
        J::O(o)
    }

    /// Queue the Drop impls a value's drop glue may run; the id of the type's own, if it has one.
    fn enqueue_drops(&mut self, ty: Ty<'tcx>, root: DefId, depth: usize) -> Option<usize> {
        let tcx = self.tcx;
        if depth > 6 { return None; }
        match ty.kind() {
            TyKind::Adt(a, args) => {
                if a.is_manually_drop() || a.is_phantom_data() || a.is_union() { return None; }
                let mut r = None;
                if let Some(dd) = a.destructor(tcx) {
                    // the impl's own generics are those of the type (E0366), same order
                    r = Some(self.inst_id(Instance::new_raw(dd.did, args), root));
                }
                for f in a.all_fields() {
                    let ft = f.ty(tcx, args).skip_normalization();
                    let ft = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, root), rustc_middle::ty::Unnormalized::new(ft)).unwrap_or(ft);
                    self.enqueue_drops(ft, root, depth + 1);
                }
                r
            }
            TyKind::Tuple(ts) => { for t in ts.iter() { self.enqueue_drops(t, root, depth + 1); } None }
            TyKind::Closure(_, args) => { for t in args.as_closure().upvar_tys().iter() { self.enqueue_drops(t, root, depth + 1); } None }
            TyKind::Array(t, _) | TyKind::Slice(t) => { self.enqueue_drops(*t, root, depth + 1); None }
            _ => None,
        }
    }

    /// The function a call refers to, as far as the root's typing environment determines it.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let a = self.args(args);
        let mut o = vec![("path", J::s(ps(tcx, d))), ("key", J::s(key(tcx, d))), ("args", a)];
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                // a trait's provided method on a type parameter resolves to the default body:
                // an implementor may override it, so for traits of this crate keep it abstract
                let overridable = tcx.trait_of_assoc(d).is_some() && d == inst.def_id()
                    && matches!(args.types().next().map(|t| *t.kind()), Some(TyKind::Param(_)));
                let id = self.inst_id(inst, root);
                o.push(("fn", J::i(id)));
                if overridable { o.push(("provided_on_param", J::B(true))); }
            }
            _ => {
                let iter = tcx.trait_of_assoc(d).is_some_and(|t| ps(tcx, t).starts_with("core::iter::"));
                if iter && tcx.defaultness(d).has_value() {
                    let id = self.inst_id(Instance::new_raw(d, args), root);
                    o.push(("fn", J::i(id)));
                    o.push(("provided_on_param", J::B(true)));
                } else {
                    o.push(("fn", J::N));
                }
            }
        }
        let pth = ps(tcx, d);
        if pth == "core::ptr::drop_in_place" || pth == "core::mem::drop" {
            if let Some(t) = args.types().next() { self.enqueue_drops(t, root, 0); }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", J::s(ps(tcx, tr)))); }
        J::O(o)
    }
}
