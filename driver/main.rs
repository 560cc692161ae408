// rustc driver: dumps the type-checked program (THIR) of the analysed crate as JSON.
// It runs no code of the analysed crate. Output file: $QS_DUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

type J = String;

fn obj(fields: Vec<(&str, J)>) -> J {
    let mut o = String::from("{");
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&esc(k));
        o.push(':');
        o.push_str(v);
    }
    o.push('}');
    o
}
fn arr(v: Vec<J>) -> J {
    format!("[{}]", v.join(","))
}
fn num<T: std::fmt::Display>(v: T) -> J {
    format!("{}", v)
}
const NULL: &str = "null";

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn key(&self, d: DefId) -> String {
        self.tcx.def_path(d).to_string_no_crate_verbose()
    }
    fn ty(&self, t: ty::Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)))
    }
    fn span(&self, s: Span) -> String {
        let s0 = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s0.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}:{}", name, lo.line, lo.col.0 + 1)
    }
    fn mac(&self, s: Span) -> Option<String> {
        // outermost-to-innermost macro backtrace names
        let v: Vec<String> = s
            .macro_backtrace()
            .map(|e| match e.kind {
                rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                k => format!("{:?}", k),
            })
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v.join(">"))
        }
    }

    fn adt_variant_name(&self, def: ty::AdtDef<'tcx>, vi: rustc_abi::VariantIdx) -> String {
        def.variant(vi).name.to_string()
    }

    fn valtree(&self, v: &ty::Value<'tcx>) -> J {
        let t = v.ty;
        if let Some(s) = v.try_to_leaf() {
            let size = s.size();
            let j = match t.kind() {
                ty::Int(_) => num(s.to_int(size)),
                ty::Bool => {
                    if s.to_uint(size) != 0 {
                        "true".into()
                    } else {
                        "false".into()
                    }
                }
                ty::Char => esc(&char::from_u32(s.to_uint(size) as u32).unwrap_or('?').to_string()),
                ty::Float(_) => esc(&format!("f{}:{}", size.bits(), s.to_uint(size))),
                _ => num(s.to_uint(size)),
            };
            return obj(vec![("k", esc("lit")), ("v", j), ("ty", esc(&self.ty(t)))]);
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                    return obj(vec![
                        ("k", esc("lit")),
                        ("v", esc(&String::from_utf8_lossy(b))),
                        ("ty", esc("&str")),
                    ]);
                }
            }
        }
        if t.is_str() {
            // `str` constant pattern behind a deref
            if let Some(br) = v.try_to_branch() {
                let mut s: Vec<u8> = vec![];
                for c in br {
                    if let Some(l) = c.try_to_leaf() {
                        s.push(l.to_u8());
                    }
                }
                return obj(vec![
                    ("k", esc("lit")),
                    ("v", esc(&String::from_utf8_lossy(&s))),
                    ("ty", esc("str")),
                ]);
            }
        }
        obj(vec![
            ("k", esc("unk")),
            ("dbg", esc(&format!("{:?}", v))),
            ("ty", esc(&self.ty(t))),
        ])
    }

    fn pat(&self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> J {
        let mut f: Vec<(&str, J)> = vec![];
        match &p.kind {
            PatKind::Missing | PatKind::Wild | PatKind::Never => f.push(("k", esc("wild"))),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                f.push(("k", esc("bind")));
                f.push(("name", esc(name.as_str())));
                f.push(("var", esc(&format!("{:?}", var.0))));
                f.push((
                    "byref",
                    match mode.0 {
                        rustc_hir::ByRef::No => "false".into(),
                        _ => "true".into(),
                    },
                ));
                f.push(("mut", if mode.1.is_mut() { "true".into() } else { "false".into() }));
                f.push(("bty", esc(&self.ty(*ty))));
                f.push((
                    "sub",
                    subpattern.as_ref().map(|s| self.pat(th, s)).unwrap_or(NULL.into()),
                ));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                f.push(("k", esc("variant")));
                f.push(("adt", esc(&self.path(adt_def.did()))));
                f.push(("variant", esc(&self.adt_variant_name(*adt_def, *variant_index))));
                f.push(("vi", num(variant_index.as_u32())));
                f.push(("subs", self.fieldpats(th, subpatterns)));
            }
            PatKind::Leaf { subpatterns } => {
                f.push(("k", esc("leaf")));
                f.push(("subs", self.fieldpats(th, subpatterns)));
            }
            PatKind::Deref { subpattern, .. } => {
                f.push(("k", esc("deref")));
                f.push(("sub", self.pat(th, subpattern)));
            }
            PatKind::DerefPattern { subpattern, .. } => {
                f.push(("k", esc("derefpat")));
                f.push(("sub", self.pat(th, subpattern)));
            }
            PatKind::Constant { value } => {
                f.push(("k", esc("const")));
                f.push(("val", self.valtree(value)));
            }
            PatKind::Range(r) => {
                f.push(("k", esc("range")));
                f.push(("dbg", esc(&format!("{:?}", r))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                f.push(("k", esc("slice")));
                f.push(("prefix", arr(prefix.iter().map(|p| self.pat(th, p)).collect())));
                f.push(("slice", slice.as_ref().map(|p| self.pat(th, p)).unwrap_or(NULL.into())));
                f.push(("suffix", arr(suffix.iter().map(|p| self.pat(th, p)).collect())));
            }
            PatKind::Or { pats } => {
                f.push(("k", esc("or")));
                f.push(("pats", arr(pats.iter().map(|p| self.pat(th, p)).collect())));
            }
            PatKind::Guard { subpattern, condition } => {
                f.push(("k", esc("guard")));
                f.push(("sub", self.pat(th, subpattern)));
                f.push(("cond", self.expr(th, *condition)));
            }
            PatKind::Error(_) => f.push(("k", esc("error"))),
        }
        f.push(("ty", esc(&self.ty(p.ty))));
        obj(f)
    }
    fn fieldpats(&self, th: &Thir<'tcx>, v: &Vec<FieldPat<'tcx>>) -> J {
        arr(v
            .iter()
            .map(|fp| obj(vec![("f", num(fp.field.as_u32())), ("p", self.pat(th, &fp.pattern))]))
            .collect())
    }

    fn callee(&self, t: ty::Ty<'tcx>, owner: LocalDefId) -> J {
        match t.kind() {
            ty::FnDef(did, args0) => {
                let args = self.tcx.erase_and_anonymize_regions(args0.skip_binder());
                let mut f: Vec<(&str, J)> = vec![];
                f.push(("path", esc(&self.path(*did))));
                f.push(("name", esc(&self.tcx.opt_item_name(*did).map(|s| s.to_string()).unwrap_or_default())));
                f.push((
                    "args",
                    arr(args
                        .iter()
                        .filter(|a| a.as_region().is_none())
                        .map(|a| esc(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", a)))))
                        .collect()),
                ));
                f.push(("local", if did.is_local() { "true".into() } else { "false".into() }));
                f.push(("key", esc(&self.key(*did))));
                if let Some(tr) = self.tcx.trait_of_assoc(*did) {
                    f.push(("trait", esc(&self.path(tr))));
                }
                // ctor?
                let dk = self.tcx.def_kind(*did);
                if let DefKind::Ctor(..) = dk {
                    f.push(("ctor", "true".into()));
                    let parent = self.tcx.parent(*did);
                    f.push(("ctorof", esc(&self.path(parent))));
                }
                let env = ty::TypingEnv::post_analysis(self.tcx, owner);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    ty::Instance::try_resolve(self.tcx, env, *did, args)
                }));
                if let Ok(Ok(Some(inst))) = r {
                    let rd = inst.def_id();
                    f.push(("res", esc(&self.path(rd))));
                    f.push(("reskey", esc(&self.key(rd))));
                    f.push(("reslocal", if rd.is_local() { "true".into() } else { "false".into() }));
                }
                obj(f)
            }
            _ => obj(vec![("ptr", esc(&self.ty(t)))]),
        }
    }

    fn stmts(&self, th: &Thir<'tcx>, b: BlockId) -> J {
        let b = &th[b];
        let ss: Vec<J> = b
            .stmts
            .iter()
            .map(|s| match &th[*s].kind {
                StmtKind::Expr { expr, .. } => obj(vec![("k", esc("expr")), ("e", self.expr(th, *expr))]),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => obj(vec![
                    ("k", esc("let")),
                    ("pat", self.pat(th, pattern)),
                    ("init", initializer.map(|e| self.expr(th, e)).unwrap_or(NULL.into())),
                    ("else", else_block.map(|b| self.stmts(th, b)).unwrap_or(NULL.into())),
                    ("sp", esc(&self.span(*span))),
                ]),
            })
            .collect();
        obj(vec![
            ("k", esc("block")),
            ("stmts", arr(ss)),
            ("expr", b.expr.map(|e| self.expr(th, e)).unwrap_or(NULL.into())),
            ("brk", if b.targeted_by_break { "true".into() } else { "false".into() }),
        ])
    }

    fn scalar_const(&self, did: DefId, args: ty::GenericArgsRef<'tcx>, t: ty::Ty<'tcx>, owner: LocalDefId) -> Option<J> {
        use rustc_middle::mir;
        if !(t.is_integral() || t.is_floating_point() || t.is_bool() || t.is_char()) {
            return None;
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, owner);
        let c = mir::Const::Unevaluated(mir::UnevaluatedConst::new(did, args), t);
        let s = c.try_eval_scalar_int(self.tcx, env)?;
        let size = s.size();
        Some(match t.kind() {
            ty::Int(_) => num(s.to_int(size)),
            ty::Bool => num(s.to_uint(size) != 0),
            ty::Float(_) => {
                if size.bits() == 32 {
                    esc(&format!("{:?}", f32::from_bits(s.to_uint(size) as u32)))
                } else {
                    esc(&format!("{:?}", f64::from_bits(s.to_uint(size) as u64)))
                }
            }
            _ => num(s.to_uint(size)),
        })
    }

    fn expr(&self, th: &Thir<'tcx>, id: ExprId) -> J {
        let owner = self.owner();
        let e = &th[id];
        let mut f: Vec<(&str, J)> = vec![];
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                // keep scope only if the inner expression is breakable
                let inner = &th[*value];
                let keep = match &inner.kind {
                    ExprKind::Loop { .. } => true,
                    ExprKind::Block { block } => th[*block].targeted_by_break,
                    _ => false,
                };
                if !keep {
                    return self.expr(th, *value);
                }
                f.push(("k", esc("scope")));
                f.push(("id", esc(&format!("{:?}", region_scope))));
                f.push(("e", self.expr(th, *value)));
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                f.push(("k", esc("if")));
                f.push(("c", self.expr(th, *cond)));
                f.push(("t", self.expr(th, *then)));
                f.push(("e", else_opt.map(|x| self.expr(th, x)).unwrap_or(NULL.into())));
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                f.push(("k", esc("call")));
                f.push(("callee", self.callee(*ty, owner)));
                if !matches!(ty.kind(), ty::FnDef(..)) {
                    f.push(("fun", self.expr(th, *fun)));
                }
                f.push(("args", arr(args.iter().map(|a| self.expr(th, *a)).collect())));
                f.push(("hir", if *from_hir_call { "true".into() } else { "false".into() }));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr),
            ExprKind::Deref { arg } => {
                f.push(("k", esc("deref")));
                f.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                f.push(("k", esc("bin")));
                f.push(("op", esc(&format!("{:?}", op))));
                f.push(("l", self.expr(th, *lhs)));
                f.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                f.push(("k", esc("logic")));
                f.push(("op", esc(&format!("{:?}", op))));
                f.push(("l", self.expr(th, *lhs)));
                f.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::Unary { op, arg } => {
                f.push(("k", esc("un")));
                f.push(("op", esc(&format!("{:?}", op))));
                f.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Cast { source } => {
                f.push(("k", esc("cast")));
                f.push(("e", self.expr(th, *source)));
                f.push(("from", esc(&self.ty(th[*source].ty))));
            }
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(th, *source),
            ExprKind::NeverToAny { source } => {
                f.push(("k", esc("never")));
                f.push(("e", self.expr(th, *source)));
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                f.push(("k", esc("coerce")));
                f.push(("cast", esc(&format!("{:?}", cast))));
                f.push(("e", self.expr(th, *source)));
            }
            ExprKind::Loop { body } => {
                f.push(("k", esc("loop")));
                f.push(("body", self.expr(th, *body)));
            }
            ExprKind::LoopMatch { .. } => f.push(("k", esc("unsupported"))),
            ExprKind::Let { expr, pat } => {
                f.push(("k", esc("let")));
                f.push(("e", self.expr(th, *expr)));
                f.push(("pat", self.pat(th, pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                f.push(("k", esc("match")));
                f.push(("src", esc(&format!("{:?}", match_source))));
                f.push(("e", self.expr(th, *scrutinee)));
                f.push((
                    "arms",
                    arr(arms
                        .iter()
                        .map(|a| {
                            let a = &th[*a];
                            obj(vec![
                                ("pat", self.pat(th, &a.pattern)),
                                ("guard", a.guard.map(|g| self.expr(th, g)).unwrap_or(NULL.into())),
                                ("body", self.expr(th, a.body)),
                                ("sp", esc(&self.span(a.span))),
                            ])
                        })
                        .collect()),
                ));
            }
            ExprKind::Block { block } => {
                f.push(("k", esc("blk")));
                f.push(("b", self.stmts(th, *block)));
            }
            ExprKind::Assign { lhs, rhs } => {
                f.push(("k", esc("assign")));
                f.push(("l", self.expr(th, *lhs)));
                f.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                f.push(("k", esc("assignop")));
                f.push(("op", esc(&format!("{:?}", op))));
                f.push(("l", self.expr(th, *lhs)));
                f.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                f.push(("k", esc("field")));
                f.push(("e", self.expr(th, *lhs)));
                f.push(("i", num(name.as_u32())));
                if let ty::Adt(def, _) = th[*lhs].ty.kind() {
                    let v = def.variant(*variant_index);
                    f.push(("adt", esc(&self.path(def.did()))));
                    f.push(("fname", esc(v.fields[*name].name.as_str())));
                }
            }
            ExprKind::Index { lhs, index } => {
                f.push(("k", esc("index")));
                f.push(("e", self.expr(th, *lhs)));
                f.push(("i", self.expr(th, *index)));
            }
            ExprKind::VarRef { id } => {
                f.push(("k", esc("var")));
                f.push(("var", esc(&format!("{:?}", id.0))));
                f.push(("name", esc(self.tcx.hir_name(id.0).as_str())));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                f.push(("k", esc("upvar")));
                f.push(("var", esc(&format!("{:?}", var_hir_id.0))));
                f.push(("name", esc(self.tcx.hir_name(var_hir_id.0).as_str())));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                f.push(("k", esc("borrow")));
                f.push((
                    "mut",
                    if matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }) {
                        "true".into()
                    } else {
                        "false".into()
                    },
                ));
                f.push(("e", self.expr(th, *arg)));
            }
            ExprKind::RawBorrow { arg, .. } => {
                f.push(("k", esc("rawborrow")));
                f.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Break { label, value } => {
                f.push(("k", esc("break")));
                f.push(("label", esc(&format!("{:?}", label))));
                f.push(("e", value.map(|v| self.expr(th, v)).unwrap_or(NULL.into())));
            }
            ExprKind::Continue { label } => {
                f.push(("k", esc("continue")));
                f.push(("label", esc(&format!("{:?}", label))));
            }
            ExprKind::Return { value } => {
                f.push(("k", esc("return")));
                f.push(("e", value.map(|v| self.expr(th, v)).unwrap_or(NULL.into())));
            }
            ExprKind::ConstBlock { did, .. } => {
                f.push(("k", esc("constblock")));
                f.push(("key", esc(&self.key(*did))));
            }
            ExprKind::Repeat { value, count } => {
                f.push(("k", esc("repeat")));
                f.push(("e", self.expr(th, *value)));
                f.push((
                    "n",
                    count
                        .try_to_target_usize(self.tcx)
                        .map(|n| num(n))
                        .unwrap_or(esc(&format!("{}", count))),
                ));
            }
            ExprKind::Array { fields } => {
                f.push(("k", esc("array")));
                f.push(("es", arr(fields.iter().map(|a| self.expr(th, *a)).collect())));
            }
            ExprKind::Tuple { fields } => {
                f.push(("k", esc("tuple")));
                f.push(("es", arr(fields.iter().map(|a| self.expr(th, *a)).collect())));
            }
            ExprKind::Adt(a) => {
                f.push(("k", esc("adt")));
                f.push(("adt", esc(&self.path(a.adt_def.did()))));
                f.push(("variant", esc(&self.adt_variant_name(a.adt_def, a.variant_index))));
                f.push(("vi", num(a.variant_index.as_u32())));
                f.push(("isenum", if a.adt_def.is_enum() { "true".into() } else { "false".into() }));
                let v = a.adt_def.variant(a.variant_index);
                f.push((
                    "fields",
                    arr(a
                        .fields
                        .iter()
                        .map(|fe| {
                            obj(vec![
                                ("i", num(fe.name.as_u32())),
                                ("n", esc(v.fields[fe.name].name.as_str())),
                                ("e", self.expr(th, fe.expr)),
                            ])
                        })
                        .collect()),
                ));
                f.push((
                    "base",
                    match &a.base {
                        AdtExprBase::Base(b) => self.expr(th, b.base),
                        AdtExprBase::DefaultFields(_) => esc("default"),
                        AdtExprBase::None => NULL.into(),
                    },
                ));
            }
            ExprKind::Closure(c) => {
                f.push(("k", esc("closure")));
                f.push(("key", esc(&self.key(c.closure_id.to_def_id()))));
                f.push(("upvars", arr(c.upvars.iter().map(|u| self.expr(th, *u)).collect())));
            }
            ExprKind::Literal { lit, neg } => {
                f.push(("k", esc("lit")));
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Str(s, _) => f.push(("v", esc(s.as_str()))),
                    ByteStr(b, _) => {
                        f.push(("v", arr(b.as_byte_str().iter().map(|x| num(*x)).collect())));
                    }
                    CStr(..) => f.push(("v", NULL.into())),
                    Byte(b) => f.push(("v", num(*b))),
                    Char(c) => f.push(("v", esc(&c.to_string()))),
                    Int(n, _) => {
                        let s = format!("{}{}", if *neg { "-" } else { "" }, n.get());
                        if e.ty.is_floating_point() { f.push(("v", esc(&s))) } else { f.push(("v", s)) }
                    }
                    Float(s, _) => f.push(("v", esc(&format!("{}{}", if *neg { "-" } else { "" }, s)))),
                    Bool(b) => f.push(("v", num(*b))),
                    Err(_) => f.push(("v", NULL.into())),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                f.push(("k", esc("lit")));
                f.push(("v", num(lit.to_uint(lit.size()))));
            }
            ExprKind::ZstLiteral { .. } => {
                f.push(("k", esc("zst")));
                if let ty::FnDef(..) = e.ty.kind() {
                    f.push(("callee", self.callee(e.ty, owner)));
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                f.push(("k", esc("const")));
                f.push(("path", esc(&self.path(*def_id))));
                f.push(("key", esc(&self.key(*def_id))));
                f.push(("local", if def_id.is_local() { "true".into() } else { "false".into() }));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    self.scalar_const(*def_id, args, e.ty, owner)
                }));
                f.push(("val", r.ok().flatten().unwrap_or(NULL.into())));
            }
            ExprKind::ConstParam { .. } => f.push(("k", esc("unsupported"))),
            ExprKind::StaticRef { def_id, .. } => {
                f.push(("k", esc("static")));
                f.push(("path", esc(&self.path(*def_id))));
                f.push(("key", esc(&self.key(*def_id))));
                f.push(("local", if def_id.is_local() { "true".into() } else { "false".into() }));
            }
            ExprKind::Reborrow { source, .. } => return self.expr(th, *source),
            ExprKind::Become { .. }
            | ExprKind::ConstContinue { .. }
            | ExprKind::InlineAsm(_)
            | ExprKind::ThreadLocalRef(_)
            | ExprKind::Yield { .. } => f.push(("k", esc("unsupported"))),
        }
        f.push(("ty", esc(&self.ty(e.ty))));
        f.push(("sp", esc(&self.span(e.span))));
        if let Some(m) = self.mac(e.span) {
            f.push(("mac", esc(&m)));
        }
        obj(f)
    }

    fn owner(&self) -> LocalDefId {
        OWNER.with(|o| o.get().unwrap())
    }

    fn body(&self, did: LocalDefId) -> Option<J> {
        OWNER.with(|o| o.set(Some(did)));
        let tcx = self.tcx;
        let (thir, root) = tcx.thir_body(did).ok()?;
        let thir = thir.borrow();
        if thir.exprs.is_empty() {
            return None;
        }
        let d = did.to_def_id();
        let kind = tcx.def_kind(d);
        let params: Vec<J> = thir
            .params
            .iter()
            .map(|p| {
                obj(vec![
                    ("ty", esc(&self.ty(p.ty))),
                    ("pat", p.pat.as_ref().map(|x| self.pat(&thir, x)).unwrap_or(NULL.into())),
                ])
            })
            .collect();
        let ret = match thir.body_type {
            BodyTy::Const(t) => self.ty(t),
            BodyTy::Fn(s) => self.ty(s.output()),
            BodyTy::GlobalAsm(t) => self.ty(t),
        };
        let mut v = vec![
            ("key", esc(&self.key(d))),
            ("path", esc(&self.path(d))),
            ("kind", esc(&format!("{:?}", kind))),
            ("name", esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("sp", esc(&self.span(tcx.def_span(d)))),
            ("ret", esc(&ret)),
            ("params", arr(params)),
        ];
        if let Some(p) = tcx.opt_parent(d) {
            v.push(("parent", esc(&self.key(p))));
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                v.push(("implfor", esc(&self.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    v.push(("trait", esc(&self.path(tr.skip_binder().def_id))));
                }
            }
        }
        v.push(("root", self.expr(&thir, root)));
        Some(obj(v))
    }
}

thread_local! {
    static OWNER: std::cell::Cell<Option<LocalDefId>> = std::cell::Cell::new(None);
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("QS_DUMP_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let d = D { tcx };
        let mut bodies = vec![];
        for did in tcx.hir_body_owners() {
            if let Some(b) = d.body(did) {
                bodies.push(b);
            }
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let def = tcx.adt_def(did);
                let vs = def
                    .variants()
                    .iter()
                    .map(|v| {
                        obj(vec![
                            ("name", esc(v.name.as_str())),
                            (
                                "fields",
                                arr(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        obj(vec![
                                            ("name", esc(f.name.as_str())),
                                            (
                                                "ty",
                                                esc(&d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                            ),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                adts.push(obj(vec![
                    ("path", esc(&d.path(did))),
                    ("enum", if def.is_enum() { "true".into() } else { "false".into() }),
                    ("variants", arr(vs)),
                ]));
            }
        }
        let s = obj(vec![
            ("debug_assertions", num(tcx.sess.opts.debug_assertions)),
            ("bodies", format!("[{}]", bodies.join(",\n"))),
            ("adts", arr(adts)),
        ]);
        std::fs::write(&out, s).expect("dump write");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zno-steal-thir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
