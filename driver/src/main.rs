//! Compiler driver: runs rustc's front end on the crate and writes the resolved, type-checked HIR of
//! every body as JSON (callees, locals, consts and types are the compiler's own resolution).
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::ast;
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags;
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(items: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = items.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Types {
    map: HashMap<String, usize>,
    list: Vec<String>,
}
impl Types {
    fn id(&mut self, s: String) -> usize {
        if let Some(i) = self.map.get(&s) {
            return *i;
        }
        let i = self.list.len();
        self.list.push(s.clone());
        self.map.insert(s, i);
        i
    }
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: &'tcx TypeckResults<'tcx>,
    types: &'a mut Types,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(tcx.def_path_str(d)))
}

fn ty_str(t: ty::Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(t.to_string()))
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn ty(&mut self, t: ty::Ty<'tcx>) -> usize {
        let s = ty_str(t);
        self.types.id(s)
    }
    fn lit(&self, l: &hir::Lit) -> String {
        match l.node {
            ast::LitKind::Str(s, _) => format!("[\"str\",{}]", js(s.as_str())),
            ast::LitKind::Int(v, _) => format!("[\"int\",\"{}\"]", v.get()),
            ast::LitKind::Float(s, _) => format!("[\"float\",{}]", js(s.as_str())),
            ast::LitKind::Bool(b) => format!("[\"bool\",{}]", b),
            ast::LitKind::Char(c) => format!("[\"char\",{}]", js(&c.to_string())),
            ast::LitKind::Byte(b) => format!("[\"int\",\"{}\"]", b),
            ast::LitKind::ByteStr(..) => "[\"bytes\",\"\"]".to_string(),
            ast::LitKind::CStr(s, _) => format!("[\"cstr\",{}]", js(&String::from_utf8_lossy(s.as_byte_str()))),
            _ => "[\"other\",\"\"]".to_string(),
        }
    }
    fn res(&mut self, r: Res, hid: hir::HirId) -> String {
        match r {
            Res::Local(id) => format!(
                "\"k\":\"Local\",\"id\":{},\"n\":{}",
                id.local_id.as_u32(),
                js(self.tcx.hir_name(id).as_str())
            ),
            Res::Def(dk, d) => {
                let ga = self.tr.node_args(hid);
                let gs = arr(ga.iter().map(|g| {
                    js(&ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(g.to_string())))
                }));
                format!(
                    "\"k\":\"Def\",\"dk\":{},\"p\":{},\"g\":{}",
                    js(&format!("{:?}", dk)),
                    js(&path_of(self.tcx, d)),
                    gs
                )
            }
            Res::SelfCtor(d) => format!("\"k\":\"Def\",\"dk\":\"SelfCtor\",\"p\":{},\"g\":[]", js(&path_of(self.tcx, d))),
            r => format!("\"k\":\"Def\",\"dk\":\"Other\",\"p\":{},\"g\":[]", js(&format!("{:?}", r))),
        }
    }
    fn pat(&mut self, p: &'tcx hir::Pat<'tcx>) -> String {
        let t = match self.tr.node_type_opt(p.hir_id) {
            Some(t) => self.ty(t) as i64,
            None => -1,
        };
        let inner = match p.kind {
            hir::PatKind::Binding(mode, id, ident, sub) => format!(
                "\"k\":\"Bind\",\"id\":{},\"n\":{},\"mut\":{},\"ref\":{},\"sub\":{}",
                id.local_id.as_u32(),
                js(ident.as_str()),
                mode.1.is_mut(),
                js(&format!("{:?}", mode.0)),
                sub.map(|s| self.pat(s)).unwrap_or("null".into())
            ),
            hir::PatKind::Wild => "\"k\":\"Wild\"".into(),
            hir::PatKind::Tuple(ps, dd) => {
                let ddp = dd.as_opt_usize().map(|x| x as i64).unwrap_or(-1);
                let v: Vec<String> = ps.iter().map(|q| self.pat(q)).collect();
                format!("\"k\":\"Tuple\",\"dd\":{},\"ps\":{}", ddp, arr(v))
            }
            hir::PatKind::TupleStruct(ref q, ps, _) => {
                let r = self.tr.qpath_res(q, p.hir_id);
                let rs = self.res(r, p.hir_id);
                let v: Vec<String> = ps.iter().map(|q| self.pat(q)).collect();
                format!("\"k\":\"TupleStruct\",\"res\":{{{}}},\"ps\":{}", rs, arr(v))
            }
            hir::PatKind::Struct(ref q, fs, _) => {
                let r = self.tr.qpath_res(q, p.hir_id);
                let rs = self.res(r, p.hir_id);
                let v: Vec<String> = fs
                    .iter()
                    .map(|f| format!("[{},{}]", js(f.ident.as_str()), self.pat(f.pat)))
                    .collect();
                format!("\"k\":\"Struct\",\"res\":{{{}}},\"fs\":{}", rs, arr(v))
            }
            hir::PatKind::Ref(q, ..) => format!("\"k\":\"Ref\",\"p\":{}", self.pat(q)),
            hir::PatKind::Or(ps) => {
                let v: Vec<String> = ps.iter().map(|q| self.pat(q)).collect();
                format!("\"k\":\"Or\",\"ps\":{}", arr(v))
            }
            hir::PatKind::Expr(e) => format!("\"k\":\"Lit\",\"v\":{}", self.patexpr(e)),
            hir::PatKind::Range(a, b, end) => format!(
                "\"k\":\"Range\",\"lo\":{},\"hi\":{},\"incl\":{}",
                a.map(|x| self.patexpr(x)).unwrap_or("null".into()),
                b.map(|x| self.patexpr(x)).unwrap_or("null".into()),
                matches!(end, hir::RangeEnd::Included)
            ),
            hir::PatKind::Slice(a, m, b) => {
                let va: Vec<String> = a.iter().map(|q| self.pat(q)).collect();
                let vb: Vec<String> = b.iter().map(|q| self.pat(q)).collect();
                format!(
                    "\"k\":\"Slice\",\"before\":{},\"mid\":{},\"after\":{}",
                    arr(va),
                    m.map(|q| self.pat(q)).unwrap_or("null".into()),
                    arr(vb)
                )
            }
            hir::PatKind::Guard(q, e) => format!("\"k\":\"Guard\",\"p\":{},\"g\":{}", self.pat(q), self.expr(e)),
            _ => "\"k\":\"Other\"".into(),
        };
        format!("{{{},\"t\":{}}}", inner, t)
    }
    fn patexpr(&mut self, e: &'tcx hir::PatExpr<'tcx>) -> String {
        match e.kind {
            hir::PatExprKind::Lit { lit, negated } => {
                format!("{{\"k\":\"Lit\",\"v\":{},\"neg\":{}}}", self.lit(&lit), negated)
            }
            hir::PatExprKind::Path(ref q) => {
                let r = self.tr.qpath_res(q, e.hir_id);
                format!("{{{}}}", self.res(r, e.hir_id))
            }
        }
    }
    fn block(&mut self, b: &'tcx hir::Block<'tcx>) -> String {
        let mut ss = Vec::new();
        for s in b.stmts {
            match s.kind {
                hir::StmtKind::Let(l) => {
                    let p = self.pat(l.pat);
                    let i = l.init.map(|e| self.expr(e)).unwrap_or("null".into());
                    let els = l.els.map(|b| self.block(b)).unwrap_or("null".into());
                    ss.push(format!("{{\"k\":\"Let\",\"p\":{},\"i\":{},\"els\":{},\"l\":{}}}", p, i, els, self.line(s.span)));
                }
                hir::StmtKind::Item(_) => {}
                hir::StmtKind::Expr(e) => ss.push(format!("{{\"k\":\"Expr\",\"e\":{}}}", self.expr(e))),
                hir::StmtKind::Semi(e) => ss.push(format!("{{\"k\":\"Semi\",\"e\":{}}}", self.expr(e))),
            }
        }
        let e = b.expr.map(|e| self.expr(e)).unwrap_or("null".into());
        let un = !matches!(b.rules, hir::BlockCheckMode::DefaultBlock);
        format!("{{\"s\":{},\"e\":{},\"unsafe\":{},\"id\":{}}}", arr(ss), e, un, b.hir_id.local_id.as_u32())
    }
    fn exprs(&mut self, es: &'tcx [hir::Expr<'tcx>]) -> String {
        let v: Vec<String> = es.iter().map(|e| self.expr(e)).collect();
        arr(v)
    }
    fn for_desugar(&mut self, head: &'tcx hir::Expr<'tcx>, arms: &'tcx [hir::Arm<'tcx>]) -> Option<String> {
        let hir::ExprKind::Call(_, [iter]) = peel(head).kind else { return None };
        let hir::ExprKind::Loop(lb, _, _, _) = peel(arms.first()?.body).kind else { return None };
        let m = match (lb.stmts, lb.expr) {
            ([s], None) => match s.kind {
                hir::StmtKind::Expr(e) | hir::StmtKind::Semi(e) => e,
                _ => return None,
            },
            ([], Some(e)) => e,
            _ => return None,
        };
        let hir::ExprKind::Match(_, inner, _) = peel(m).kind else { return None };
        let [_, some] = inner else { return None };
        let pat = match some.pat.kind {
            hir::PatKind::TupleStruct(_, [p], _) => p,
            hir::PatKind::Struct(_, [f], _) => f.pat,
            _ => return None,
        };
        let lid = arms.first()?.body.hir_id.local_id.as_u32();
        let p = self.pat(pat);
        let it = self.expr(iter);
        let b = self.expr(some.body);
        Some(format!("\"k\":\"For\",\"p\":{},\"it\":{},\"b\":{},\"id\":{}", p, it, b, lid))
    }
    fn expr(&mut self, e: &'tcx hir::Expr<'tcx>) -> String {
        if let hir::ExprKind::DropTemps(i) = e.kind {
            return self.expr(i);
        }
        let t = match self.tr.expr_ty_opt(e) {
            Some(t) => self.ty(t) as i64,
            None => -1,
        };
        let l = self.line(e.span);
        let inner = match e.kind {
            hir::ExprKind::Lit(lit) => format!("\"k\":\"Lit\",\"v\":{}", self.lit(&lit)),
            hir::ExprKind::Path(ref q) => {
                let r = self.tr.qpath_res(q, e.hir_id);
                self.res(r, e.hir_id)
            }
            hir::ExprKind::Array(es) => format!("\"k\":\"Array\",\"es\":{}", self.exprs(es)),
            hir::ExprKind::Tup(es) => format!("\"k\":\"Tup\",\"es\":{}", self.exprs(es)),
            hir::ExprKind::Call(f, a) => format!("\"k\":\"Call\",\"f\":{},\"a\":{}", self.expr(f), self.exprs(a)),
            hir::ExprKind::MethodCall(seg, r, a, _) => {
                let d = self.tr.type_dependent_def_id(e.hir_id);
                let p = d.map(|d| path_of(self.tcx, d)).unwrap_or_default();
                let local = d.map(|d| d.is_local()).unwrap_or(false);
                let ga = self.tr.node_args(e.hir_id);
                let gs = arr(ga.iter().map(|g| {
                    js(&ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(g.to_string())))
                }));
                format!(
                    "\"k\":\"Method\",\"n\":{},\"p\":{},\"local\":{},\"g\":{},\"r\":{},\"a\":{}",
                    js(seg.ident.as_str()),
                    js(&p),
                    local,
                    gs,
                    self.expr(r),
                    self.exprs(a)
                )
            }
            hir::ExprKind::Binary(op, a, b) => {
                format!("\"k\":\"Bin\",\"op\":{},\"a\":{},\"b\":{}", js(op.node.as_str()), self.expr(a), self.expr(b))
            }
            hir::ExprKind::Unary(op, a) => {
                let o = match op {
                    hir::UnOp::Deref => "*",
                    hir::UnOp::Not => "!",
                    hir::UnOp::Neg => "-",
                };
                format!("\"k\":\"Un\",\"op\":\"{}\",\"a\":{}", o, self.expr(a))
            }
            hir::ExprKind::Cast(a, _) => format!("\"k\":\"Cast\",\"a\":{}", self.expr(a)),
            hir::ExprKind::Type(a, _) => return self.expr(a),
            hir::ExprKind::Use(a, _) => return self.expr(a),
            hir::ExprKind::Let(le) => format!("\"k\":\"LetE\",\"p\":{},\"i\":{}", self.pat(le.pat), self.expr(le.init)),
            hir::ExprKind::If(c, a, b) => format!(
                "\"k\":\"If\",\"c\":{},\"a\":{},\"b\":{}",
                self.expr(c),
                self.expr(a),
                b.map(|x| self.expr(x)).unwrap_or("null".into())
            ),
            hir::ExprKind::Loop(b, _, src, _) => {
                let id = e.hir_id.local_id.as_u32();
                let w = if matches!(src, hir::LoopSource::While) && b.stmts.is_empty() {
                    match b.expr.map(|x| peel(x).kind) {
                        Some(hir::ExprKind::If(c, a, Some(_))) => Some((c, a)),
                        _ => None,
                    }
                } else {
                    None
                };
                match w {
                    Some((c, a)) => format!("\"k\":\"While\",\"c\":{},\"b\":{},\"id\":{}", self.expr(c), self.expr(a), id),
                    None => format!("\"k\":\"Loop\",\"b\":{},\"id\":{}", self.block(b), id),
                }
            }
            hir::ExprKind::Match(h, arms, src) => {
                let fd = if matches!(src, hir::MatchSource::ForLoopDesugar) { self.for_desugar(h, arms) } else { None };
                match fd {
                    Some(s) => s,
                    None => {
                        let hs = self.expr(h);
                        let v: Vec<String> = arms
                            .iter()
                            .map(|a| {
                                format!(
                                    "{{\"p\":{},\"g\":{},\"b\":{}}}",
                                    self.pat(a.pat),
                                    a.guard.map(|g| self.expr(g)).unwrap_or("null".into()),
                                    self.expr(a.body)
                                )
                            })
                            .collect();
                        format!(
                            "\"k\":\"Match\",\"src\":{},\"h\":{},\"arms\":{}",
                            js(match src {
                                hir::MatchSource::TryDesugar(_) => "try",
                                hir::MatchSource::Normal => "match",
                                _ => "other",
                            }),
                            hs,
                            arr(v)
                        )
                    }
                }
            }
            hir::ExprKind::Closure(c) => {
                let body = self.tcx.hir_body(c.body);
                let ps: Vec<String> = body.params.iter().map(|p| self.pat(p.pat)).collect();
                let mv = matches!(c.capture_clause, hir::CaptureBy::Value { .. });
                format!("\"k\":\"Closure\",\"ps\":{},\"b\":{},\"move\":{}", arr(ps), self.expr(body.value), mv)
            }
            hir::ExprKind::Block(b, _) => format!("\"k\":\"Block\",\"b\":{}", self.block(b)),
            hir::ExprKind::Assign(a, b, _) => format!("\"k\":\"Assign\",\"a\":{},\"b\":{}", self.expr(a), self.expr(b)),
            hir::ExprKind::AssignOp(op, a, b) => {
                format!("\"k\":\"AssignOp\",\"op\":{},\"a\":{},\"b\":{}", js(op.node.as_str()), self.expr(a), self.expr(b))
            }
            hir::ExprKind::Field(a, id) => format!("\"k\":\"Field\",\"n\":{},\"a\":{}", js(id.as_str()), self.expr(a)),
            hir::ExprKind::Index(a, b, _) => format!("\"k\":\"Index\",\"a\":{},\"b\":{}", self.expr(a), self.expr(b)),
            hir::ExprKind::AddrOf(k, m, a) => format!(
                "\"k\":\"Ref\",\"raw\":{},\"mut\":{},\"a\":{}",
                matches!(k, hir::BorrowKind::Raw),
                m.is_mut(),
                self.expr(a)
            ),
            hir::ExprKind::Break(d, v) => format!(
                "\"k\":\"Break\",\"to\":{},\"v\":{}",
                d.target_id.map(|x| x.local_id.as_u32() as i64).unwrap_or(-1),
                v.map(|x| self.expr(x)).unwrap_or("null".into())
            ),
            hir::ExprKind::Continue(d) => {
                format!("\"k\":\"Continue\",\"to\":{}", d.target_id.map(|x| x.local_id.as_u32() as i64).unwrap_or(-1))
            }
            hir::ExprKind::Ret(v) => format!("\"k\":\"Ret\",\"v\":{}", v.map(|x| self.expr(x)).unwrap_or("null".into())),
            hir::ExprKind::Struct(q, fs, tail) => {
                let r = self.tr.qpath_res(q, e.hir_id);
                let rs = self.res(r, e.hir_id);
                let v: Vec<String> = fs
                    .iter()
                    .map(|f| format!("[{},{}]", js(f.ident.as_str()), self.expr(f.expr)))
                    .collect();
                let b = match tail {
                    hir::StructTailExpr::Base(b) => self.expr(b),
                    _ => "null".into(),
                };
                format!("\"k\":\"Struct\",\"res\":{{{}}},\"fs\":{},\"base\":{}", rs, arr(v), b)
            }
            hir::ExprKind::Repeat(a, _) => {
                let n = match self.tr.expr_ty_opt(e).map(|t| *t.kind()) {
                    Some(ty::Array(_, c)) => c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or(js(&c.to_string())),
                    _ => "null".into(),
                };
                format!("\"k\":\"Repeat\",\"a\":{},\"n\":{}", self.expr(a), n)
            }
            ref o => {
                let s = format!("{:?}", o);
                let s: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
                format!("\"k\":\"Other\",\"what\":{}", js(&s))
            }
        };
        format!("{{{},\"t\":{},\"l\":{}}}", inner, t, l)
    }
}

fn peel<'tcx>(e: &'tcx hir::Expr<'tcx>) -> &'tcx hir::Expr<'tcx> {
    match e.kind {
        hir::ExprKind::DropTemps(i) => peel(i),
        _ => e,
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut types = Types { map: HashMap::new(), list: Vec::new() };
    let mut bodies: Vec<String> = Vec::new();
    let sm = tcx.sess.source_map();
    let fileline = |sp: rustc_span::Span| {
        let sp2 = sp.source_callsite();
        let p = sm.lookup_char_pos(sp2.lo());
        (p.file.name.prefer_local_unconditionally().to_string(), p.line, sp.from_expansion())
    };
    for d in tcx.hir_body_owners() {
        let d: LocalDefId = d;
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
            continue;
        }
        let did = d.to_def_id();
        let tr = tcx.typeck(d);
        let body = tcx.hir_body_owned_by(d);
        let (file, line, exp) = fileline(tcx.def_span(did));
        let mut cx = Cx { tcx, tr, types: &mut types };
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"path\":{},\"name\":{},\"kind\":{},\"file\":{},\"line\":{},\"exp\":{},\"vis\":{}",
            js(&path_of(tcx, did)),
            js(tcx.item_name(did).as_str()),
            js(&format!("{:?}", kind)),
            js(&file),
            line,
            exp,
            js(&format!("{:?}", tcx.visibility(did)))
        );
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let tid = cx.ty(st);
            let _ = write!(s, ",\"self\":{}", tid);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let t = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"trait\":{}", js(&ty::print::with_no_trimmed_paths!(t.to_string())));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
            let o = cx.ty(sig.output());
            let at = tcx.codegen_fn_attrs(did);
            let _ = write!(
                s,
                ",\"in\":{},\"out\":{},\"abi\":{},\"no_mangle\":{},\"export\":{},\"unsafe\":{}",
                arr(ins),
                o,
                js(&format!("{:?}", sig.abi())),
                at.flags.contains(CodegenFnAttrFlags::NO_MANGLE),
                at.symbol_name.map(|x| js(x.as_str())).unwrap_or("null".into()),
                !sig.safety().is_safe()
            );
            let gens: Vec<String> = tcx.generics_of(did).own_params.iter().map(|p| js(p.name.as_str())).collect();
            let _ = write!(s, ",\"generics\":{}", arr(gens));
        } else {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let o = cx.ty(t);
            let mutable = matches!(kind, DefKind::Static { mutability: hir::Mutability::Mut, .. });
            let _ = write!(s, ",\"out\":{},\"static_mut\":{}", o, mutable);
        }
        let ps: Vec<String> = body.params.iter().map(|p| cx.pat(p.pat)).collect();
        let b = cx.expr(body.value);
        let _ = write!(s, ",\"ps\":{},\"body\":{}}}", arr(ps), b);
        bodies.push(s);
    }
    let mut structs: Vec<String> = Vec::new();
    let mut mods: Vec<String> = Vec::new();
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let (file, line, exp) = fileline(tcx.def_span(did));
                let adt = tcx.adt_def(did);
                let mut fs = Vec::new();
                for f in adt.all_fields() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fs.push(format!(
                        "[{},{},{}]",
                        js(f.name.as_str()),
                        js(&ty_str(t)),
                        js(&format!("{:?}", tcx.visibility(f.did)))
                    ));
                }
                structs.push(format!(
                    "{{\"path\":{},\"file\":{},\"line\":{},\"exp\":{},\"vis\":{},\"fields\":{},\"repr_c\":{}}}",
                    js(&path_of(tcx, did)),
                    js(&file),
                    line,
                    exp,
                    js(&format!("{:?}", tcx.visibility(did))),
                    arr(fs),
                    adt.repr().c()
                ));
            }
            DefKind::Mod => {
                let (file, _, _) = fileline(tcx.def_span(did));
                mods.push(format!("[{},{}]", js(&path_of(tcx, did)), js(&file)));
            }
            _ => {}
        }
    }
    let tl: Vec<String> = types.list.iter().map(|s| js(s)).collect();
    let res = format!(
        "{{\"types\":{},\n\"mods\":{},\n\"structs\":{},\n\"bodies\":[\n{}\n]}}\n",
        arr(tl),
        arr(mods),
        arr(structs),
        bodies.join(",\n")
    );
    std::fs::write(out, res).expect("write dump");
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "polymers");
    match (is_target, std::env::var("HIRDUMP_OUT")) {
        (true, Ok(out)) => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
