//! Fact extractor: runs as RUSTC_WRAPPER, and for the crates named in THIRFACTS_CRATES writes the
//! type-checked program (THIR of every body, types, traits, impls) as JSON to $THIRFACTS_OUT/<crate>.json.
//! It executes nothing of the analysed crate.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_ast::LitKind;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::HashMap;

struct Cb;

macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k, $v)),*]) } }
fn s(x: impl ToString) -> J { J::S(x.to_string()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().unwrap_or(-1)) }

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let wanted = std::env::var("THIRFACTS_CRATES").unwrap_or_default();
        if !wanted.split(',').any(|w| w == name) { return Compilation::Continue; }
        let out = match std::env::var("THIRFACTS_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let d = D { tcx, ids: Default::default(), types: Default::default() };
        let j = d.dump(&name);
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut buf = String::new();
        j.write(&mut buf);
        let tmp = format!("{out}/{name}.json.tmp");
        std::fs::write(&tmp, buf).expect("write facts");
        std::fs::rename(&tmp, format!("{out}/{name}.json")).expect("rename facts");
        Compilation::Continue
    }
}

struct D<'tcx> { tcx: TyCtxt<'tcx>, ids: RefCell<HashMap<Ty<'tcx>, usize>>, types: RefCell<Vec<J>> }

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => v.push(self.cst(c)),
                ty::GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn cst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => obj! {"t": s("cparam"), "name": s(p.name)},
            _ => match c.try_to_target_usize(self.tcx) { Some(u) => obj! {"t": s("cval"), "v": n(u)}, None => obj! {"t": s("cother"), "v": s(format!("{c:?}"))} },
        }
    }
    /// Types are interned: every type is an index into the "types" table.
    fn ty(&self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.ids.borrow().get(&t) { return n(*i); }
        let j = self.ty_raw(t);
        let i = { let mut v = self.types.borrow_mut(); v.push(j); v.len() - 1 };
        self.ids.borrow_mut().insert(t, i);
        n(i)
    }
    fn ty_raw(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => s(t.to_string()),
            ty::Adt(d, a) => obj! {"t": s("adt"), "k": s(self.key(d.did())), "n": s(self.tcx.item_name(d.did())), "a": self.args(a)},
            ty::Ref(_, x, m) => obj! {"t": s("ref"), "m": J::B(m.is_mut()), "ty": self.ty(*x)},
            ty::RawPtr(x, m) => obj! {"t": s("ptr"), "m": J::B(m.is_mut()), "ty": self.ty(*x)},
            ty::Tuple(l) => obj! {"t": s("tuple"), "a": J::A(l.iter().map(|x| self.ty(x)).collect())},
            ty::Array(x, c) => obj! {"t": s("array"), "ty": self.ty(*x), "len": self.cst(*c)},
            ty::Slice(x) => obj! {"t": s("slice"), "ty": self.ty(*x)},
            ty::Param(p) => obj! {"t": s("param"), "name": s(p.name)},
            ty::FnDef(f, a) => {
                let d: DefId = (*f).into();
                obj! {"t": s("fn"), "f": self.callee(d), "a": self.args(a.skip_binder())}
            }
            ty::Closure(d, _) => { let d: DefId = (*d).into(); obj! {"t": s("closure"), "k": s(self.key(d))} }
            ty::Alias(..) => {
                match t.kind() {
                    ty::Alias(_, al) => {
                        let (d, a) = self.alias(al);
                        obj! {"t": s("alias"), "k": s(self.key(d)), "n": s(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()), "a": self.args(a)}
                    }
                    _ => unreachable!(),
                }
            }
            ty::FnPtr(..) => obj! {"t": s("fnptr")},
            ty::Dynamic(..) => obj! {"t": s("dyn"), "s": s(t.to_string())},
            _ => obj! {"t": s("other"), "s": s(t.to_string())},
        }
    }
    fn alias(&self, al: &ty::AliasTy<'tcx>) -> (DefId, GenericArgsRef<'tcx>) {
        let d: DefId = match al.kind {
            ty::AliasTyKind::Projection { def_id } => def_id.into(),
            ty::AliasTyKind::Inherent { def_id } => def_id.into(),
            ty::AliasTyKind::Opaque { def_id } => def_id.into(),
            ty::AliasTyKind::Free { def_id } => def_id.into(),
        };
        (d, al.args)
    }
    fn callee(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", s(self.key(d))), ("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())), ("kind", s(format!("{:?}", tcx.def_kind(d))))];
        o.push(("cr", s(tcx.crate_name(d.krate))));
        let g = tcx.generics_of(d);
        let mut names = vec![];
        self.gen_names(g, &mut names);
        o.push(("g", J::A(names)));
        let p;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            p = tcx.parent(d);
            if matches!(tcx.def_kind(p), DefKind::Variant) {
                o.push(("ctor_adt", s(self.key(tcx.parent(p)))));
                o.push(("ctor_variant", s(tcx.item_name(p))));
                o.push(("ctor_adt_name", s(tcx.item_name(tcx.parent(p)))));
            } else {
                o.push(("ctor_adt", s(self.key(p))));
                o.push(("ctor_adt_name", s(tcx.item_name(p))));
            }
        }
        if let Some(par) = tcx.opt_parent(d) {
            match tcx.def_kind(par) {
                DefKind::Impl { of_trait } => {
                    o.push(("impl", s(self.key(par))));
                    o.push(("self", self.ty(tcx.type_of(par).instantiate_identity().skip_norm_wip())));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.key(tr.def_id))));
                        o.push(("trait_n", s(tcx.item_name(tr.def_id))));
                    }
                }
                DefKind::Trait => {
                    o.push(("trait", s(self.key(par))));
                    o.push(("trait_n", s(tcx.item_name(par))));
                    o.push(("in_trait", J::B(true)));
                }
                _ => {}
            }
        }
        J::O(o)
    }
    fn gen_names(&self, g: &ty::Generics, v: &mut Vec<J>) {
        if let Some(p) = g.parent { self.gen_names(self.tcx.generics_of(p), v); }
        for p in &g.own_params {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { v.push(s(p.name)); }
        }
    }

    fn dump(&self, name: &str) -> J {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut errs = vec![];
        for ld in tcx.hir_body_owners() {
            // promoted/anon consts inside types are included too: they are ordinary bodies
            match tcx.thir_body(ld) {
                Ok((th, root)) => {
                    let th = th.borrow();
                    bodies.push(self.body(ld, &th, root));
                }
                Err(_) => errs.push(s(self.key(ld.to_def_id()))),
            }
        }
        let mut files = std::collections::BTreeSet::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(self.adt(d)),
                DefKind::Impl { of_trait } => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(obj! {"n": s(it.opt_name().map(|x| x.to_string()).unwrap_or_default()), "k": s(self.key(it.def_id)),
                            "ty": if it.is_type() { self.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()) } else { J::Null }});
                    }
                    let mut names = vec![];
                    self.gen_names(tcx.generics_of(d), &mut names);
                    let mut o = vec![("k", s(self.key(d))), ("self", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())), ("items", J::A(items)), ("g", J::A(names)),
                        ("derived", J::B(tcx.is_automatically_derived(d))), ("span", self.span(tcx.def_span(d)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.key(tr.def_id))));
                        o.push(("trait_n", s(tcx.item_name(tr.def_id))));
                        o.push(("trait_cr", s(tcx.crate_name(tr.def_id.krate))));
                        o.push(("trait_args", self.args(tr.args)));
                        o.push(("expn", s(format!("{:?}", tcx.def_span(d).ctxt().outer_expn_data().kind))));
                    }
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(obj! {"n": s(it.opt_name().map(|x| x.to_string()).unwrap_or_default()), "k": s(self.key(it.def_id)), "default": J::B(it.defaultness(tcx).has_value())});
                    }
                    traits.push(obj! {"k": s(self.key(d)), "n": s(tcx.item_name(d)), "items": J::A(items)});
                }
                _ => {}
            }
        }
        for f in tcx.sess.source_map().files().iter() {
            let nm = format!("{}", f.name.prefer_local_unconditionally());
            if f.cnum == rustc_hir::def_id::LOCAL_CRATE { files.insert(nm); }
        }
        obj! {"crate": s(name), "bodies": J::A(bodies), "adts": J::A(adts), "impls": J::A(impls), "traits": J::A(traits), "errors": J::A(errs), "types": J::A(self.types.take()),
            "files": J::A(files.into_iter().map(J::S).collect())}
    }
    fn adt(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        for (i, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() { n(a.discriminant_for_variant(tcx, i).val) } else { J::Null };
            vs.push(obj! {"n": s(v.name), "discr": discr, "fields": J::A(v.fields.iter().map(|f| obj! {"n": s(f.name), "ty": self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), "pub": J::B(f.vis.is_public())}).collect())});
        }
        let mut names = vec![];
        self.gen_names(tcx.generics_of(d), &mut names);
        obj! {"k": s(self.key(d)), "n": s(tcx.item_name(d)), "kind": s(if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" }), "variants": J::A(vs), "g": J::A(names), "span": self.span(tcx.def_span(d)),
            "pub": J::B(tcx.visibility(d).is_public())}
    }
    fn body(&self, ld: LocalDefId, th: &Thir<'tcx>, root: ExprId) -> J {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let b = B { d: self, th };
        let kind = tcx.def_kind(d);
        let params = J::A(th.params.iter().map(|p| obj! {"pat": match &p.pat { Some(p) => b.pat(p), None => J::Null }, "ty": self.ty(p.ty)}).collect());
        let exprs = J::A(th.exprs.iter().map(|e| b.expr(e)).collect());
        let stmts = J::A(th.stmts.iter().map(|st| b.stmt(st)).collect());
        let blocks = J::A(th.blocks.iter().map(|bl| obj! {"stmts": J::A(bl.stmts.iter().map(|x| n(x.as_u32())).collect()), "expr": match bl.expr { Some(e) => n(e.as_u32()), None => J::Null }, "scope": b.scope(bl.region_scope), "tb": J::B(bl.targeted_by_break),
            "unsafe": J::B(matches!(bl.safety_mode, BlockSafety::ExplicitUnsafe(_)))}).collect());
        let arms = J::A(th.arms.iter().map(|a| obj! {"pat": b.pat(&a.pattern), "guard": match a.guard { Some(g) => n(g.as_u32()), None => J::Null }, "body": n(a.body.as_u32())}).collect());
        let mut names = vec![];
        self.gen_names(tcx.generics_of(d), &mut names);
        let ret = match &th.body_type { BodyTy::Fn(sig) => self.ty(sig.output()), BodyTy::Const(t) => self.ty(*t), BodyTy::GlobalAsm(t) => self.ty(*t) };
        let vis = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. }) && tcx.visibility(d).is_public();
        let mut o = vec![("k", s(self.key(d))), ("n", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())), ("kind", s(format!("{kind:?}"))), ("g", J::A(names)), ("params", params), ("ret", ret), ("root", n(root.as_u32())),
            ("exprs", exprs), ("stmts", stmts), ("blocks", blocks), ("arms", arms), ("span", self.span(tcx.def_span(d))), ("pub", J::B(vis)), ("derived", J::B(self.in_derived(d))), ("test", J::B(self.in_test(d)))];
        if let Some(p) = tcx.opt_parent(d) { o.push(("parent", s(self.key(p)))); }
        J::O(o)
    }
    fn in_derived(&self, mut d: DefId) -> bool {
        loop {
            if matches!(self.tcx.def_kind(d), DefKind::Impl { .. }) && self.tcx.is_automatically_derived(d) { return true; }
            match self.tcx.opt_parent(d) { Some(p) => d = p, None => return false }
        }
    }
    fn in_test(&self, _d: DefId) -> bool { false }
}

struct B<'a, 'tcx> { d: &'a D<'tcx>, th: &'a Thir<'tcx> }

impl<'a, 'tcx> B<'a, 'tcx> {
    fn scope(&self, sc: rustc_middle::middle::region::Scope) -> J { s(format!("{:?}", sc)) }
    fn var(&self, v: LocalVarId) -> J {
        let h = v.0;
        s(format!("{}#{}", self.d.key(h.owner.to_def_id()), h.local_id.as_u32()))
    }
    fn e(&self, x: ExprId) -> J { n(x.as_u32()) }
    fn oe(&self, x: Option<ExprId>) -> J { match x { Some(x) => n(x.as_u32()), None => J::Null } }
    fn es(&self, x: &[ExprId]) -> J { J::A(x.iter().map(|y| n(y.as_u32())).collect()) }
    fn stmt(&self, st: &Stmt<'tcx>) -> J {
        match &st.kind {
            StmtKind::Expr { expr, .. } => obj! {"k": s("expr"), "e": self.e(*expr)},
            StmtKind::Let { pattern, initializer, else_block, .. } => obj! {"k": s("let"), "pat": self.pat(pattern), "init": self.oe(*initializer), "else": match else_block { Some(b) => n(b.as_u32()), None => J::Null }},
        }
    }
    fn value(&self, v: &ty::Value<'tcx>) -> J {
        let tcx = self.d.tcx;
        let t = self.d.ty(v.ty);
        if let Some(sc) = v.try_to_leaf() {
            return obj! {"ty": t, "bits": s(sc.to_bits_unchecked().to_string()), "size": n(sc.size().bytes())};
        }
        let mut vv = *v;
        if let ty::Ref(_, inner, _) = v.ty.kind() { vv = ty::Value { ty: *inner, valtree: v.valtree }; }
        let _ = vv;
        match v.try_to_raw_bytes(tcx) {
            Some(b) => obj! {"ty": t, "str": s(String::from_utf8_lossy(b))},
            None => obj! {"ty": t, "dbg": s(format!("{v:?}"))},
        }
    }
    fn pat(&self, p: &Pat<'tcx>) -> J {
        let t = self.d.ty(p.ty);
        match &p.kind {
            PatKind::Wild | PatKind::Missing => obj! {"k": s("wild")},
            PatKind::Never => obj! {"k": s("never")},
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let by = match mode.0 { rustc_hir::ByRef::No => "val", rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { "mut" } else { "ref" } };
                obj! {"k": s("bind"), "n": s(name), "by": s(by), "v": self.var(*var), "ty": t, "sub": match subpattern { Some(x) => self.pat(x), None => J::Null }}
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => obj! {"k": s("variant"), "adt": s(self.d.key(adt_def.did())), "adtn": s(self.d.tcx.item_name(adt_def.did())), "vn": s(adt_def.variant(*variant_index).name), "vi": n(variant_index.as_u32()), "sub": self.fps(subpatterns), "ty": t},
            PatKind::Leaf { subpatterns } => obj! {"k": s("leaf"), "sub": self.fps(subpatterns), "ty": t},
            PatKind::Deref { subpattern, .. } => obj! {"k": s("deref"), "sub": self.pat(subpattern), "ty": t},
            PatKind::DerefPattern { subpattern, .. } => obj! {"k": s("derefpat"), "sub": self.pat(subpattern), "ty": t},
            PatKind::Constant { value } => obj! {"k": s("const"), "v": self.value(value), "ty": t},
            PatKind::Range(r) => obj! {"k": s("range"), "lo": self.bound(&r.lo, r.ty), "hi": self.bound(&r.hi, r.ty), "incl": J::B(matches!(r.end, rustc_hir::RangeEnd::Included)), "ty": t},
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => obj! {"k": s("slice"), "prefix": J::A(prefix.iter().map(|x| self.pat(x)).collect()), "slice": match slice { Some(x) => self.pat(x), None => J::Null }, "suffix": J::A(suffix.iter().map(|x| self.pat(x)).collect())},
            PatKind::Or { pats } => obj! {"k": s("or"), "a": J::A(pats.iter().map(|x| self.pat(x)).collect())},
            PatKind::Guard { subpattern, condition } => obj! {"k": s("guard"), "sub": self.pat(subpattern), "c": self.e(*condition)},
            PatKind::Error(_) => obj! {"k": s("error")},
        }
    }
    fn bound(&self, b: &PatRangeBoundary<'tcx>, t: Ty<'tcx>) -> J {
        match b {
            PatRangeBoundary::Finite(v) => self.value(&ty::Value { ty: t, valtree: *v }),
            _ => J::Null,
        }
    }
    fn fps(&self, f: &[FieldPat<'tcx>]) -> J { J::A(f.iter().map(|x| obj! {"f": n(x.field.as_u32()), "p": self.pat(&x.pattern)}).collect()) }
    fn lit(&self, l: &LitKind) -> J {
        match l {
            LitKind::Str(x, _) => obj! {"str": s(x)},
            LitKind::ByteStr(x, _) => obj! {"bytes": J::A(x.as_byte_str().iter().map(|b| n(*b)).collect())},
            LitKind::CStr(..) => obj! {"cstr": J::Null},
            LitKind::Byte(b) => obj! {"int": s(b)},
            LitKind::Char(c) => obj! {"char": s(c)},
            LitKind::Int(v, _) => obj! {"int": s(v.get())},
            LitKind::Float(v, _) => obj! {"float": s(v)},
            LitKind::Bool(b) => obj! {"bool": J::B(*b)},
            LitKind::Err(_) => obj! {"err": J::Null},
        }
    }
    fn expr(&self, e: &Expr<'tcx>) -> J {
        use ExprKind::*;
        let tcx = self.d.tcx;
        let d = self.d;
        let mut o: Vec<(&'static str, J)> = match &e.kind {
            Scope { value, region_scope, .. } => vec![("k", s("scope")), ("e", self.e(*value)), ("scope", self.scope(*region_scope))],
            If { cond, then, else_opt, .. } => vec![("k", s("if")), ("c", self.e(*cond)), ("t", self.e(*then)), ("f", self.oe(*else_opt))],
            Call { fun, args, ty, from_hir_call, .. } => vec![("k", s("call")), ("f", self.e(*fun)), ("a", self.es(args)), ("fty", d.ty(*ty)), ("hir", J::B(*from_hir_call))],
            ByUse { expr, .. } => vec![("k", s("use")), ("e", self.e(*expr))],
            Deref { arg } => vec![("k", s("deref")), ("e", self.e(*arg))],
            Binary { op, lhs, rhs } => vec![("k", s("bin")), ("op", s(format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            LogicalOp { op, lhs, rhs } => vec![("k", s("logic")), ("op", s(format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            Unary { op, arg } => vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("e", self.e(*arg))],
            Cast { source } => vec![("k", s("cast")), ("e", self.e(*source))],
            ValueExpr { source } => vec![("k", s("use")), ("e", self.e(*source))],
            NeverToAny { source } => vec![("k", s("never")), ("e", self.e(*source))],
            PointerCoercion { source, cast, .. } => vec![("k", s("coerce")), ("e", self.e(*source)), ("c", s(format!("{cast:?}")))],
            Loop { body } => vec![("k", s("loop")), ("e", self.e(*body))],
            LoopMatch { .. } => vec![("k", s("loopmatch"))],
            Let { expr, pat } => vec![("k", s("let")), ("e", self.e(*expr)), ("pat", self.pat(pat))],
            Match { scrutinee, arms, match_source } => vec![("k", s("match")), ("e", self.e(*scrutinee)), ("arms", J::A(arms.iter().map(|a| n(a.as_u32())).collect())), ("src", s(match match_source { rustc_hir::MatchSource::ForLoopDesugar => "for", rustc_hir::MatchSource::TryDesugar(_) => "try", _ => "match" }))],
            Block { block } => vec![("k", s("block")), ("b", n(block.as_u32()))],
            Assign { lhs, rhs } => vec![("k", s("assign")), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            AssignOp { op, lhs, rhs } => vec![("k", s("assignop")), ("op", s(format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            Field { lhs, variant_index, name } => {
                let fname = match self.th.exprs[*lhs].ty.kind() { ty::Adt(a, _) => s(a.variant(*variant_index).fields[*name].name), _ => J::Null };
                vec![("k", s("field")), ("e", self.e(*lhs)), ("i", n(name.as_u32())), ("vi", n(variant_index.as_u32())), ("n", fname)]
            }
            Index { lhs, index } => vec![("k", s("index")), ("e", self.e(*lhs)), ("i", self.e(*index))],
            VarRef { id } => vec![("k", s("var")), ("v", self.var(*id))],
            UpvarRef { var_hir_id, .. } => vec![("k", s("upvar")), ("v", self.var(*var_hir_id))],
            Borrow { borrow_kind, arg } => vec![("k", s("borrow")), ("e", self.e(*arg)), ("m", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })))],
            RawBorrow { arg, mutability } => vec![("k", s("rawborrow")), ("e", self.e(*arg)), ("m", J::B(mutability.is_mut()))],
            Break { label, value } => vec![("k", s("break")), ("label", self.scope(*label)), ("e", self.oe(*value))],
            Continue { label } => vec![("k", s("continue")), ("label", self.scope(*label))],
            ConstContinue { .. } => vec![("k", s("constcontinue"))],
            Return { value } => vec![("k", s("return")), ("e", self.oe(*value))],
            Become { value } => vec![("k", s("become")), ("e", self.e(*value))],
            ConstBlock { did, args } => vec![("k", s("constblock")), ("def", s(d.key(*did))), ("a", d.args(args))],
            Repeat { value, count } => vec![("k", s("repeat")), ("e", self.e(*value)), ("n", d.cst(*count))],
            Array { fields } => vec![("k", s("array")), ("a", self.es(fields))],
            Tuple { fields } => vec![("k", s("tuple")), ("a", self.es(fields))],
            Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let fs = a.fields.iter().map(|f| obj! {"i": n(f.name.as_u32()), "n": s(v.fields[f.name].name), "e": self.e(f.expr)}).collect();
                let base = match &a.base { AdtExprBase::Base(b) => self.e(b.base), _ => J::Null };
                vec![("k", s("adt")), ("adt", s(d.key(a.adt_def.did()))), ("adtn", s(tcx.item_name(a.adt_def.did()))), ("vn", s(v.name)), ("vi", n(a.variant_index.as_u32())), ("enum", J::B(a.adt_def.is_enum())), ("fs", J::A(fs)), ("nf", n(v.fields.len() as u64)), ("base", base)]
            }
            PlaceTypeAscription { source, .. } | ValueTypeAscription { source, .. } | PlaceUnwrapUnsafeBinder { source } | ValueUnwrapUnsafeBinder { source } | WrapUnsafeBinder { source } => vec![("k", s("use")), ("e", self.e(*source))],
            Closure(c) => vec![("k", s("closure")), ("def", s(d.key(c.closure_id.to_def_id()))), ("up", self.es(&c.upvars))],
            Literal { lit, neg } => vec![("k", s("lit")), ("v", self.lit(&lit.node)), ("neg", J::B(*neg))],
            NonHirLiteral { lit, .. } => vec![("k", s("scalar")), ("bits", s(lit.to_bits_unchecked())), ("size", n(lit.size().bytes()))],
            ZstLiteral { .. } => vec![("k", s("zst"))],
            NamedConst { def_id, args, .. } => vec![("k", s("const")), ("f", d.callee(*def_id)), ("a", d.args(args))],
            ConstParam { param, .. } => vec![("k", s("cparam")), ("n", s(param.name))],
            StaticRef { def_id, .. } => vec![("k", s("static")), ("def", s(d.key(*def_id))), ("mut", J::B(tcx.is_mutable_static(*def_id)))],
            InlineAsm(_) => vec![("k", s("asm"))],
            ThreadLocalRef(x) => vec![("k", s("tls")), ("def", s(d.key(*x)))],
            Yield { .. } => vec![("k", s("yield"))],
            Reborrow { source, .. } => vec![("k", s("use")), ("e", self.e(*source))],
        };
        o.push(("ty", d.ty(e.ty)));
        o.push(("sp", d.span(e.span)));
        J::O(o)
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::catch_with_exit_code(move || { rustc_driver::compiler_entrypoint(&args, &mut Cb); })
}
