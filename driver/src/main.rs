//! rustc driver that dumps the *typed* program (THIR of every body, data types,
//! impls, resolved callees) of a workspace crate as JSON.  It is injected with
//! RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  It decides nothing; the
//! analyser in /verif/engine reads the dump.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    S(String),
    N(i128),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    Null,
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::S(s) => esc(s, out),
            J::N(n) => {
                let _ = write!(out, "{n}");
            }
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Null => out.push_str("null"),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_list: Vec<J>,
    missing_adts: Vec<DefId>,
    seen_adts: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let kr = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{kr}{p}")
    }
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && !p.starts_with('<') {
            format!("{}::{}", self.krate, p)
        } else {
            p
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) {
            return J::N(*i as i128);
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(J::Null);
        let st = self.tystr(t);
        let mut o = vec![("s", s(st))];
        match t.kind() {
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let j = self.ty(*inner);
                o.push(("of", j));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(def.did()))));
                o.push(("key", s(self.key(def.did()))));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                if self.seen_adts.insert(def.did(), ()).is_none() {
                    self.missing_adts.push(def.did());
                }
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let j = self.ty(*e);
                o.push(("of", j));
            }
            ty::Array(e, n) => {
                o.push(("k", s("slice")));
                let j = self.ty(*e);
                o.push(("of", j));
                o.push(("len", s(format!("{n}"))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("key", s(self.key(*d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("key", s(self.key(*d))));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                o.push(("k", s("prim")))
            }
            _ => o.push(("k", s("other"))),
        }
        self.ty_list[i] = J::O(o);
        J::N(i as i128)
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        // attribute macro-expanded code to the outermost call site
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("key", s(self.key(d)))];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            if let Some(st) = args.types().next() {
                let j = self.ty(st);
                o.push(("selfty", j));
            }
        }
        let erased = tcx.erase_and_anonymize_regions(args);
        if let DefKind::Fn | DefKind::AssocFn = tcx.def_kind(d) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, erased) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rpath", s(self.path(rd))));
                    o.push(("rkey", s(self.key(rd))));
                }
                let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                o.push(("rargs", J::A(ra)));
                o.push(("rlocal", J::B(rd.is_local())));
            }
        }
        J::O(o)
    }
    fn constval(&mut self, v: ty::Value<'tcx>) -> J {
        let mut o = vec![];
        let t = self.ty(v.ty);
        o.push(("t", t));
        if let Some(b) = v.try_to_raw_bytes(self.tcx) {
            let st = String::from_utf8_lossy(b).to_string();
            o.push(("str", s(st)));
        } else if let Some(leaf) = v.try_to_leaf() {
            let size = leaf.size();
            let bits = leaf.to_bits(size);
            let n = match v.ty.kind() {
                ty::Int(_) => size.sign_extend(bits) as i128,
                _ => bits as i128,
            };
            match v.ty.kind() {
                ty::Float(ty::FloatTy::F64) => {
                    o.push(("f", s(format!("{:?}", f64::from_bits(bits as u64)))))
                }
                ty::Float(ty::FloatTy::F32) => {
                    o.push(("f", s(format!("{:?}", f32::from_bits(bits as u32)))))
                }
                ty::Bool => o.push(("b", J::B(bits != 0))),
                ty::Char => o.push(("c", J::N(n))),
                _ => o.push(("n", J::N(n))),
            }
        } else {
            o.push(("dbg", s(format!("{:?}", v))));
        }
        J::O(o)
    }
    fn hid(&self, v: &LocalVarId) -> J {
        s(format!("{}#{}", self.key(v.0.owner.to_def_id()), v.0.local_id.as_u32()))
    }
    fn fields(&mut self, sub: &[FieldPat<'tcx>], names: Vec<String>) -> J {
        J::A(sub
            .iter()
            .map(|f| {
                let i = f.field.as_usize();
                let n = names.get(i).cloned().unwrap_or_else(|| i.to_string());
                let p = self.pat(&f.pattern);
                J::A(vec![s(n), p])
            })
            .collect())
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let t = self.ty(p.ty);
        let mut o = vec![("t", t)];
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never | PatKind::Error(_) => {
                o.push(("k", s("Wild")))
            }
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("k", s("Bind")));
                o.push(("name", s(name.to_string())));
                o.push(("var", self.hid(var)));
                let r = match mode.0 {
                    rustc_hir::ByRef::No => "val",
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                };
                o.push(("mode", s(r)));
                if let Some(sp) = subpattern {
                    let j = self.pat(sp);
                    o.push(("sub", j));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", s("Variant")));
                let v = adt_def.variant(*variant_index);
                o.push(("adt", s(self.key(adt_def.did()))));
                o.push(("variant", s(v.name.to_string())));
                let names = v.fields.iter().map(|f| f.name.to_string()).collect();
                let j = self.fields(subpatterns, names);
                o.push(("sub", j));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("Leaf")));
                let names = match p.ty.kind() {
                    ty::Adt(def, _) if def.is_struct() => def
                        .non_enum_variant()
                        .fields
                        .iter()
                        .map(|f| f.name.to_string())
                        .collect(),
                    _ => vec![],
                };
                let j = self.fields(subpatterns, names);
                o.push(("sub", j));
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("k", s("Deref")));
                let j = self.pat(subpattern);
                o.push(("sub", j));
            }
            PatKind::DerefPattern { subpattern, .. } => {
                o.push(("k", s("Deref")));
                let j = self.pat(subpattern);
                o.push(("sub", j));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("Const")));
                let j = self.constval(*value);
                o.push(("v", j));
            }
            PatKind::Range(r) => {
                o.push(("k", s("Range")));
                let f = |me: &mut Self, b: PatRangeBoundary<'tcx>| match b {
                    PatRangeBoundary::Finite(v) => me.constval(ty::Value { ty: r.ty, valtree: v }),
                    _ => J::Null,
                };
                let lo = f(self, r.lo);
                let hi = f(self, r.hi);
                o.push(("lo", lo));
                o.push(("hi", hi));
                o.push(("incl", J::B(matches!(r.end, rustc_hir::RangeEnd::Included))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", s("Slice")));
                let a = prefix.iter().map(|x| self.pat(x)).collect();
                o.push(("prefix", J::A(a)));
                let b = match slice {
                    Some(x) => self.pat(x),
                    None => J::Null,
                };
                o.push(("slice", b));
                let c = suffix.iter().map(|x| self.pat(x)).collect();
                o.push(("suffix", J::A(c)));
            }
            PatKind::Or { pats } => {
                o.push(("k", s("Or")));
                let a = pats.iter().map(|x| self.pat(x)).collect();
                o.push(("pats", J::A(a)));
            }
            PatKind::Guard { .. } => o.push(("k", s("Guard"))),
        }
        J::O(o)
    }
    fn scope_id(&self, r: &rustc_middle::middle::region::Scope) -> J {
        s(format!("{}:{:?}", r.local_id.as_u32(), r.data))
    }
    fn block(&mut self, th: &Thir<'tcx>, b: BlockId, env: ty::TypingEnv<'tcx>) -> J {
        let b = &th.blocks[b];
        let mut st = vec![];
        for si in b.stmts.iter() {
            let x = &th.stmts[*si];
            match &x.kind {
                StmtKind::Expr { expr, .. } => {
                    let j = self.expr(th, *expr, env);
                    st.push(J::O(vec![("k", s("Expr")), ("e", j)]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let mut o = vec![("k", s("Let")), ("sp", self.span(*span))];
                    let p = self.pat(pattern);
                    o.push(("pat", p));
                    if let Some(i) = initializer {
                        let j = self.expr(th, *i, env);
                        o.push(("init", j));
                    }
                    if let Some(e) = else_block {
                        let j = self.block(th, *e, env);
                        o.push(("else", j));
                    }
                    st.push(J::O(o));
                }
            }
        }
        let mut o = vec![
            ("k", s("Block")),
            ("targeted", J::B(b.targeted_by_break)),
            ("scope", self.scope_id(&b.region_scope)),
            ("stmts", J::A(st)),
        ];
        if let Some(e) = b.expr {
            let j = self.expr(th, e, env);
            o.push(("e", j));
        }
        J::O(o)
    }
    fn arms(&mut self, th: &Thir<'tcx>, arms: &[ArmId], env: ty::TypingEnv<'tcx>) -> J {
        J::A(arms
            .iter()
            .map(|a| {
                let a = &th.arms[*a];
                let p = self.pat(&a.pattern);
                let mut o = vec![("pat", p), ("sp", self.span(a.span))];
                if let Some(g) = a.guard {
                    let j = self.expr(th, g, env);
                    o.push(("guard", j));
                }
                let j = self.expr(th, a.body, env);
                o.push(("body", j));
                J::O(o)
            })
            .collect())
    }
    fn expr(&mut self, th: &Thir<'tcx>, e: ExprId, env: ty::TypingEnv<'tcx>) -> J {
        let ex = &th.exprs[e];
        // transparent wrappers
        match &ex.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                let inner = self.expr(th, *value, env);
                let keep = matches!(&inner, J::O(v) if v.iter().any(|(k, x)| *k == "k" && matches!(x, J::S(n) if n == "Loop" || n == "Block" || n=="LoopMatch")));
                if keep {
                    return J::O(vec![
                        ("k", s("Scope")),
                        ("id", self.scope_id(region_scope)),
                        ("e", inner),
                    ]);
                }
                return inner;
            }
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(th, *source, env),
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr, env),
            _ => {}
        }
        let t = self.ty(ex.ty);
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k {
            ($x:expr) => {
                o.push(("k", s($x)))
            };
        }
        match &ex.kind {
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("If");
                let a = self.expr(th, *cond, env);
                let b = self.expr(th, *then, env);
                o.push(("c", a));
                o.push(("a", b));
                if let Some(x) = else_opt {
                    let c = self.expr(th, *x, env);
                    o.push(("b", c));
                }
            }
            ExprKind::Call { fun, args, ty, .. } => {
                k!("Call");
                if let ty::FnDef(d, ga) = ty.kind() {
                    let c = self.callee(*d, ga.skip_binder(), env);
                    o.push(("f", c));
                } else {
                    let f = self.expr(th, *fun, env);
                    o.push(("fe", f));
                }
                let a = args.iter().map(|x| self.expr(th, *x, env)).collect();
                o.push(("args", J::A(a)));
            }
            ExprKind::Deref { arg } => {
                k!("Deref");
                let a = self.expr(th, *arg, env);
                o.push(("e", a));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("Bin");
                o.push(("op", s(format!("{op:?}"))));
                let a = self.expr(th, *lhs, env);
                let b = self.expr(th, *rhs, env);
                o.push(("l", a));
                o.push(("r", b));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("Logic");
                o.push(("op", s(format!("{op:?}"))));
                let a = self.expr(th, *lhs, env);
                let b = self.expr(th, *rhs, env);
                o.push(("l", a));
                o.push(("r", b));
            }
            ExprKind::Unary { op, arg } => {
                k!("Un");
                o.push(("op", s(format!("{op:?}"))));
                let a = self.expr(th, *arg, env);
                o.push(("e", a));
            }
            ExprKind::Cast { source } => {
                k!("Cast");
                let a = self.expr(th, *source, env);
                o.push(("e", a));
            }
            ExprKind::NeverToAny { source } => {
                k!("NeverToAny");
                let a = self.expr(th, *source, env);
                o.push(("e", a));
            }
            ExprKind::PointerCoercion { source, .. } => {
                k!("Coerce");
                let a = self.expr(th, *source, env);
                o.push(("e", a));
            }
            ExprKind::Loop { body } => {
                k!("Loop");
                let a = self.expr(th, *body, env);
                o.push(("e", a));
            }
            ExprKind::Let { expr, pat } => {
                k!("LetCond");
                let a = self.expr(th, *expr, env);
                let p = self.pat(pat);
                o.push(("e", a));
                o.push(("pat", p));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("Match");
                o.push(("src", s(format!("{match_source:?}"))));
                let a = self.expr(th, *scrutinee, env);
                o.push(("e", a));
                let b = self.arms(th, arms, env);
                o.push(("arms", b));
            }
            ExprKind::Block { block } => {
                let j = self.block(th, *block, env);
                if let J::O(v) = j {
                    o = v;
                }
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("Assign");
                let a = self.expr(th, *lhs, env);
                let b = self.expr(th, *rhs, env);
                o.push(("l", a));
                o.push(("r", b));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("AssignOp");
                o.push(("op", s(format!("{op:?}"))));
                let a = self.expr(th, *lhs, env);
                let b = self.expr(th, *rhs, env);
                o.push(("l", a));
                o.push(("r", b));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("Field");
                let lt = th.exprs[*lhs].ty;
                let n = match lt.kind() {
                    ty::Adt(def, _) => def.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                o.push(("name", s(n)));
                let a = self.expr(th, *lhs, env);
                o.push(("e", a));
            }
            ExprKind::Index { lhs, index } => {
                k!("Index");
                let a = self.expr(th, *lhs, env);
                let b = self.expr(th, *index, env);
                o.push(("e", a));
                o.push(("i", b));
            }
            ExprKind::VarRef { id } => {
                k!("Var");
                o.push(("var", self.hid(id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("Upvar");
                o.push(("var", self.hid(var_hir_id)));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("Borrow");
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                o.push(("mut", J::B(m)));
                let a = self.expr(th, *arg, env);
                o.push(("e", a));
            }
            ExprKind::Reborrow { source, mutability, .. } => {
                k!("Borrow");
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("re", J::B(true)));
                let a = self.expr(th, *source, env);
                o.push(("e", a));
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("RawBorrow");
                let a = self.expr(th, *arg, env);
                o.push(("e", a));
            }
            ExprKind::Break { label, value } => {
                k!("Break");
                o.push(("label", self.scope_id(label)));
                if let Some(v) = value {
                    let a = self.expr(th, *v, env);
                    o.push(("e", a));
                }
            }
            ExprKind::Continue { label } => {
                k!("Continue");
                o.push(("label", self.scope_id(label)));
            }
            ExprKind::Return { value } => {
                k!("Return");
                if let Some(v) = value {
                    let a = self.expr(th, *v, env);
                    o.push(("e", a));
                }
            }
            ExprKind::Repeat { value, count } => {
                k!("Repeat");
                let a = self.expr(th, *value, env);
                o.push(("e", a));
                o.push(("n", s(format!("{count}"))));
            }
            ExprKind::Array { fields } => {
                k!("Array");
                let a = fields.iter().map(|x| self.expr(th, *x, env)).collect();
                o.push(("es", J::A(a)));
            }
            ExprKind::Tuple { fields } => {
                k!("Tuple");
                let a = fields.iter().map(|x| self.expr(th, *x, env)).collect();
                o.push(("es", J::A(a)));
            }
            ExprKind::Adt(a) => {
                k!("Adt");
                let v = a.adt_def.variant(a.variant_index);
                o.push(("adt", s(self.key(a.adt_def.did()))));
                o.push(("enum", J::B(a.adt_def.is_enum())));
                o.push(("variant", s(v.name.to_string())));
                let f = a
                    .fields
                    .iter()
                    .map(|f| {
                        let x = self.expr(th, f.expr, env);
                        J::A(vec![s(v.fields[f.name].name.to_string()), x])
                    })
                    .collect();
                o.push(("fields", J::A(f)));
                if let AdtExprBase::Base(b) = &a.base {
                    let x = self.expr(th, b.base, env);
                    o.push(("base", x));
                }
            }
            ExprKind::Closure(c) => {
                k!("Closure");
                o.push(("key", s(self.key(c.closure_id.to_def_id()))));
                let u = c.upvars.iter().map(|x| self.expr(th, *x, env)).collect();
                o.push(("upvars", J::A(u)));
            }
            ExprKind::Literal { lit, neg } => {
                k!("Lit");
                use rustc_ast::ast::LitKind;
                match &lit.node {
                    LitKind::Str(x, _) => o.push(("str", s(x.to_string()))),
                    LitKind::ByteStr(x, _) => o.push((
                        "bytes",
                        J::A(x.as_byte_str().iter().map(|b| J::N(*b as i128)).collect()),
                    )),
                    LitKind::CStr(..) => o.push(("other", J::Null)),
                    LitKind::Byte(b) => o.push(("n", J::N(*b as i128))),
                    LitKind::Char(c) => o.push(("c", J::N(*c as i128))),
                    LitKind::Int(n, _) => {
                        let n = n.get() as i128;
                        o.push(("n", J::N(if *neg { -n } else { n })))
                    }
                    LitKind::Float(x, _) => {
                        let x = x.to_string().replace('_', "");
                        o.push(("f", s(if *neg { format!("-{x}") } else { x })))
                    }
                    LitKind::Bool(b) => o.push(("b", J::B(*b))),
                    LitKind::Err(_) => o.push(("other", J::Null)),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("Lit");
                let n = lit.to_bits(lit.size());
                match ex.ty.kind() {
                    ty::Bool => o.push(("b", J::B(n != 0))),
                    ty::Float(_) => o.push(("f", s(format!("{:?}", f64::from_bits(n as u64))))),
                    ty::Int(_) => o.push(("n", J::N(lit.size().sign_extend(n)))),
                    _ => o.push(("n", J::N(n as i128))),
                }
            }
            ExprKind::ZstLiteral { .. } => match ex.ty.kind() {
                ty::FnDef(d, ga) => {
                    k!("Fn");
                    let c = self.callee(*d, ga.skip_binder(), env);
                    o.push(("f", c));
                }
                _ => k!("Zst"),
            },
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("Const");
                let c = self.callee(*def_id, args, env);
                o.push(("f", c));
                if !def_id.is_local() {
                    // evaluate foreign scalar constants
                    let uv = rustc_middle::mir::UnevaluatedConst::new(*def_id, args);
                    if let Ok(v) = self.tcx.const_eval_resolve(env, uv, ex.span) {
                        if let Some(sc) = v.try_to_scalar_int() {
                            let n = sc.to_bits(sc.size());
                            match ex.ty.kind() {
                                ty::Float(ty::FloatTy::F64) => {
                                    o.push(("f64", s(format!("{:?}", f64::from_bits(n as u64)))))
                                }
                                ty::Int(_) => o.push(("n", J::N(sc.size().sign_extend(n)))),
                                ty::Uint(_) => o.push(("n", J::N(n as i128))),
                                ty::Bool => o.push(("b", J::B(n != 0))),
                                _ => {}
                            }
                        }
                    }
                }
            }
            ExprKind::ConstParam { param, .. } => {
                k!("ConstParam");
                o.push(("name", s(param.name.to_string())));
            }
            ExprKind::StaticRef { def_id, .. } => {
                k!("Static");
                o.push(("key", s(self.key(*def_id))));
                o.push(("path", s(self.path(*def_id))));
            }
            ExprKind::ThreadLocalRef(d) => {
                k!("Static");
                o.push(("key", s(self.key(*d))));
                o.push(("path", s(self.path(*d))));
            }
            ExprKind::ConstBlock { did, .. } => {
                k!("ConstBlock");
                o.push(("key", s(self.key(*did))));
            }
            ExprKind::LoopMatch { .. }
            | ExprKind::ConstContinue { .. }
            | ExprKind::Become { .. }
            | ExprKind::InlineAsm(_)
            | ExprKind::Yield { .. } => k!("Unsupported"),
            _ => k!("Unsupported"),
        }
        o.push(("t", t));
        o.push(("sp", self.span(ex.span)));
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let Ok(dir) = std::env::var("THIRDUMP_OUT") else { return };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, krate: krate.clone(), tys: HashMap::new(), ty_list: vec![], missing_adts: vec![], seen_adts: HashMap::new() };
    let mut bodies = vec![];
    let mut errs = vec![];
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for d in owners {
        let kind = tcx.def_kind(d);
        let env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d.to_def_id()));
        let Ok((th, root)) = tcx.thir_body(d) else {
            errs.push(s(cx.key(d.to_def_id())));
            continue;
        };
        let th = th.borrow();
        let mut o = vec![
            ("key", s(cx.key(d.to_def_id()))),
            ("path", s(cx.path(d.to_def_id()))),
            ("kind", s(format!("{kind:?}"))),
            ("sp", cx.span(tcx.def_span(d))),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(d))));
            let names: Vec<J> = tcx
                .fn_arg_idents(d.to_def_id())
                .iter()
                .map(|i| i.map(|i| s(i.to_string())).unwrap_or(J::Null))
                .collect();
            o.push(("argnames", J::A(names)));
            let gargs = ty::GenericArgs::identity_for_item(tcx, d);
            let gn: Vec<J> = gargs.types().map(|x| s(format!("{x}"))).collect();
            o.push(("gnames", J::A(gn)));
        }
        let auto = {
            let root = tcx.typeck_root_def_id(d.to_def_id());
            match tcx.opt_parent(root) {
                Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                    let mut dv = tcx.def_span(p).from_expansion();
                    if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                        dv |= tcx.is_builtin_derived(p);
                    }
                    dv
                }
                _ => false,
            }
        };
        o.push(("derived", J::B(auto)));
        let ps: Vec<J> = th
            .params
            .iter()
            .map(|p| {
                let t = cx.ty(p.ty);
                let mut po = vec![("t", t)];
                if let Some(pt) = &p.pat {
                    let j = cx.pat(pt);
                    po.push(("pat", j));
                }
                J::O(po)
            })
            .collect();
        o.push(("params", J::A(ps)));
        if let DefKind::Closure = kind {
            let caps = tcx
                .closure_captures(d)
                .iter()
                .map(|c| {
                    let by = match c.info.capture_kind {
                        ty::UpvarCapture::ByValue => "val",
                        ty::UpvarCapture::ByUse => "val",
                        ty::UpvarCapture::ByRef(b) => match b {
                            ty::BorrowKind::Immutable => "ref",
                            _ => "refmut",
                        },
                    };
                    s(by)
                })
                .collect();
            o.push(("caps", J::A(caps)));
        }
        if let BodyTy::Fn(sig) = th.body_type {
            let r = cx.ty(sig.output());
            o.push(("ret", r));
        }
        let e = cx.expr(&th, root, env);
        o.push(("body", e));
        bodies.push(J::O(o));
    }
    // impls
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
            let did = id.to_def_id();
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let j = cx.ty(st);
            let mut o = vec![("key", s(cx.key(did))), ("self", j)];
            if of_trait {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(cx.path(tr.def_id))));
                o.push(("derived", J::B(tcx.is_builtin_derived(did) || tcx.def_span(did).from_expansion())));
            }
            let mut items = vec![];
            for it in tcx.associated_item_def_ids(did) {
                items.push(J::A(vec![s(tcx.item_name(*it).to_string()), s(cx.key(*it))]));
            }
            o.push(("items", J::A(items)));
            o.push(("sp", cx.span(tcx.def_span(did))));
            impls.push(J::O(o));
        }
    }
    // ADTs (local ones always, foreign ones when a type mentions them)
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union)
            && cx.seen_adts.insert(id.to_def_id(), ()).is_none()
        {
            cx.missing_adts.push(id.to_def_id());
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    while i < cx.missing_adts.len() {
        let d = cx.missing_adts[i];
        i += 1;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![s(f.name.to_string())];
                if d.is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let j = cx.ty(t);
                    fo.push(j);
                    fo.push(J::B(tcx.visibility(f.did).is_public()));
                }
                fs.push(J::A(fo));
            }
            vs.push(J::A(vec![s(v.name.to_string()), J::A(fs)]));
        }
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        adts.push(J::O(vec![
            ("path", s(cx.path(d))),
            ("key", s(cx.key(d))),
            ("kind", s(k)),
            ("local", J::B(d.is_local())),
            (
                "gparams",
                J::A(
                    tcx.generics_of(d)
                        .own_params
                        .iter()
                        .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                        .map(|p| s(p.name.to_string()))
                        .collect(),
                ),
            ),
            ("variants", J::A(vs)),
        ]));
    }
    let tys = std::mem::take(&mut cx.ty_list);
    let out = J::O(vec![
        ("crate", s(krate.clone())),
        ("errors", J::A(errs)),
        ("bodies", J::A(bodies)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("types", J::A(tys)),
    ]);
    let mut st = String::new();
    out.w(&mut st);
    let f = format!("{dir}/{krate}.json");
    std::fs::write(&f, st).expect("write dump");
}

fn main() -> std::process::ExitCode {
    // argv: wrapper rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let skip = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name");
    struct N;
    impl Callbacks for N {}
    rustc_driver::catch_with_exit_code(move || {
        if skip {
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        }
    })
}
