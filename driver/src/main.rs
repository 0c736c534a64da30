// Fact extractor: a rustc driver that type-checks one crate exactly as cargo would and then
// writes the resolved program (MIR control-flow graphs with resolved callees, types, impl
// tables) to $ANNISFACTS_OUT/<crate>.json.  The rules run on top of these facts.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_transform;
extern crate rustc_session;
extern crate rustc_span;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_middle::util::Providers;
use rustc_session::Session;
use rustc_span::{DesugaringKind, ExpnKind, Span};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::OnceLock;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
type Prov = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<Prov> = OnceLock::new();

fn hooked<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let is_co = tcx.is_coroutine(def.to_def_id());
    if is_co {
        // force borrowck first (it needs the unstolen promoted body), then keep the
        // pre-state-machine body
        tcx.ensure_done().mir_coroutine_witnesses(def);
        let _ = tcx.mir_borrowck(tcx.typeck_root_def_id_local(def));
        let (b, _) = tcx.mir_promoted(def);
        let b: Body<'tcx> = b.borrow().clone();
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        BODIES.with(|m| m.borrow_mut().insert(def, b));
    }
    let r = ORIG.get().unwrap()(tcx, def);
    if !is_co {
        let b: Body<'tcx> = r.borrow().clone();
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        BODIES.with(|m| m.borrow_mut().insert(def, b));
    }
    r
}

fn override_queries(_s: &Session, p: &mut Providers) {
    let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked);
    p.queries.mir_drops_elaborated_and_const_checked = hooked;
}

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
}

impl<'tcx> Ctx<'tcx> {
    fn did(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let s = with_no_trimmed_paths!(with_no_visible_paths!(t.to_string()));
        let mut j = format!("{{\"s\":{}", esc(&s));
        match t.kind() {
            ty::Adt(def, args) => {
                let a = self.args(args);
                let _ = write!(j, ",\"k\":\"adt\",\"d\":{},\"a\":{}", esc(&self.did(def.did())), a);
            }
            ty::Ref(_, inner, m) => {
                let a = self.ty(*inner);
                let _ = write!(j, ",\"k\":\"ref\",\"mut\":{},\"a\":[{}]", m.is_mut(), a);
            }
            ty::RawPtr(inner, m) => {
                let a = self.ty(*inner);
                let _ = write!(j, ",\"k\":\"ptr\",\"mut\":{},\"a\":[{}]", m.is_mut(), a);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(j, ",\"k\":\"tuple\",\"a\":[{}]", v.join(","));
            }
            ty::Slice(t) | ty::Array(t, _) => {
                let a = self.ty(*t);
                let _ = write!(j, ",\"k\":\"slice\",\"a\":[{}]", a);
            }
            ty::Dynamic(preds, _) => {
                let mut names = vec![];
                let mut extra = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(tr) => names.push(esc(&self.did(tr.def_id))),
                        ty::ExistentialPredicate::Projection(pr) => {
                            if let Some(t) = pr.term.as_type() {
                                extra.push(self.ty(t).to_string());
                            }
                        }
                        ty::ExistentialPredicate::AutoTrait(_) => {}
                    }
                }
                let _ = write!(j, ",\"k\":\"dyn\",\"tr\":[{}],\"a\":[{}]", names.join(","), extra.join(","));
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(j, ",\"k\":\"closure\",\"d\":{},\"a\":[{}]", esc(&self.did(*d)), ups.join(","));
            }
            ty::Coroutine(d, _) => {
                let _ = write!(j, ",\"k\":\"coroutine\",\"d\":{},\"a\":[]", esc(&self.did(*d)));
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = self.args(args);
                let _ = write!(j, ",\"k\":\"fndef\",\"d\":{},\"a\":{}", esc(&self.did((*d).into())), a);
            }
            ty::FnPtr(..) => {
                let _ = write!(j, ",\"k\":\"fnptr\",\"a\":[]");
            }
            ty::Param(_) => {
                let _ = write!(j, ",\"k\":\"param\",\"a\":[]");
            }
            ty::Alias(..) => {
                // opaque types: reveal the bounds through the printed form only
                let _ = write!(j, ",\"k\":\"alias\",\"a\":[]");
            }
            _ => {
                let _ = write!(j, ",\"k\":\"prim\",\"a\":[]");
            }
        }
        j.push('}');
        self.ty_json[i] = j;
        i
    }

    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line)
    }

    // outermost macro / innermost desugaring this span comes from
    fn exp(&self, sp: Span) -> String {
        let mut r = vec![];
        let mut s = sp;
        let mut n = 0;
        while s.from_expansion() && n < 12 {
            let e = s.ctxt().outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, name) => r.push(name.to_string()),
                ExpnKind::Desugaring(k) => r.push(
                    match k {
                        DesugaringKind::QuestionMark => "?",
                        DesugaringKind::ForLoop => "for",
                        DesugaringKind::Await => "await",
                        DesugaringKind::WhileLoop => "while",
                        DesugaringKind::Async => "async",
                        _ => "desugar",
                    }
                    .to_string(),
                ),
                ExpnKind::AstPass(_) => r.push("astpass".into()),
                ExpnKind::Root => {}
            }
            s = e.call_site;
            n += 1;
        }
        r.join(">")
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    let mut owner = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            owner = self.did(def.did());
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if let Some(v) = def.variants().get(vi) {
                                if let Some(fd) = v.fields.get(f) {
                                    name = fd.name.to_string();
                                }
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            owner = self.did(*d);
                            if d.is_local() {
                                let names = tcx.closure_saved_names_of_captured_variables(*d);
                                if let Some(n) = names.get(f) {
                                    name = format!("^{}:{}", f.as_usize(), n);
                                }
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(s, ",[\".\",{},{}]", esc(&name), esc(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, ",[\"[]\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, .. } => {
                    let _ = write!(s, ",[\"[c]\",{}]", offset);
                }
                ProjectionElem::Subslice { .. } => s.push_str(",\"[..]\""),
                ProjectionElem::Downcast(n, vi) => {
                    let n = n.map(|n| n.to_string()).unwrap_or_else(|| vi.as_usize().to_string());
                    let _ = write!(s, ",[\"@\",{}]", esc(&n));
                }
                _ => s.push_str(",\"?\""),
            }
            pty = pty.projection_ty(tcx, e);
        }
        s.push(']');
        s
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut j = format!("{{\"id\":{}", esc(&self.did(d)));
        let nm = with_no_trimmed_paths!(with_no_visible_paths!(tcx.def_path_str(d)));
        let _ = write!(j, ",\"n\":{}", esc(&nm));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(j, ",\"tr\":{}", esc(&self.did(tr)));
            let st = args.type_at(0);
            let i = self.ty(st);
            let _ = write!(j, ",\"self\":{}", i);
            if tcx.is_diagnostic_item(rustc_span::sym::Iterator, tr) {
                if let Some(it) = tcx
                    .associated_items(tr)
                    .in_definition_order()
                    .find(|x| matches!(x.kind, ty::AssocKind::Type { .. }))
                {
                    let pt = Ty::new_projection(tcx, ty::IsRigid::No, it.def_id, [st]);
                    if let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(pt)) {
                        let i = self.ty(t);
                        let _ = write!(j, ",\"item\":{}", i);
                    }
                }
            }
        }
        let a = self.args(args);
        let _ = write!(j, ",\"a\":{}", a);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let k = match inst.def {
                    ty::InstanceKind::Item(x) => {
                        let _ = write!(j, ",\"res\":{}", esc(&self.did(x)));
                        "item"
                    }
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let _ = write!(j, ",\"rk\":\"{}\"", k);
            }
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            j.push_str(",\"rk\":\"ctor\"");
        }
        j.push('}');
        j
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut j = format!("{{\"k\":\"c\",\"ty\":{}", ti);
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(env, (*d).into(), args.skip_binder());
            let _ = write!(j, ",\"fn\":{}}}", cal);
            return j;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(j, ",\"prom\":\"{}#p{}\"}}", self.did(u.def).replace('"', ""), p.as_usize());
                let _ = owner;
                return j;
            }
            let _ = write!(j, ",\"path\":{}", esc(&self.did(u.def)));
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(j, ",\"ct\":{}", esc(&ct.to_string()));
        }
        let is_slice = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str() || matches!(i.kind(), ty::Slice(e) if *e == tcx.types.u8));
        let is_bytearr = matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Array(e, _) if *e == tcx.types.u8));
        if is_slice || t.is_integral() || t.is_bool() || t.is_char() || is_bytearr {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if is_slice {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(j, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                    }
                } else if is_bytearr {
                    if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        if let Some(interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..m.inner().len());
                            let _ = write!(j, ",\"b\":{}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                } else if let ConstValue::Scalar(interpret::Scalar::Int(si)) = v {
                    let bits = si.to_bits_unchecked();
                    let _ = write!(j, ",\"i\":\"{}\"", bits);
                }
            }
        } else if let Const::Val(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            let (prov, _) = p.into_raw_parts();
            if let Some(interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                let _ = write!(j, ",\"static\":{}", esc(&self.did(d)));
            }
        }
        j.push('}');
        j
    }

    fn op(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"p\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"m\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, body.source.def_id(), c),
            Operand::RuntimeChecks(_) => "{\"k\":\"rt\"}".into(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":[{}]}}", self.op(env, body, o)),
            Rvalue::Repeat(o, _) => format!("{{\"k\":\"repeat\",\"o\":[{}]}}", self.op(env, body, o)),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"fake\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                matches!(bk, BorrowKind::Fake(_)),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("{{\"k\":\"cast\",\"c\":{},\"ty\":{},\"o\":[{}]}}", esc(&format!("{:?}", k)), ti, self.op(env, body, o))
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"k\":\"bin\",\"b\":\"{:?}\",\"o\":[{},{}]}}",
                b,
                self.op(env, body, &ops.0),
                self.op(env, body, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"b\":\"{:?}\",\"o\":[{}]}}", u, self.op(env, body, o)),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, self.tcx).ty;
                let mut vs = String::new();
                if let ty::Adt(def, _) = pt.kind() {
                    if def.is_enum() {
                        let v: Vec<String> = def
                            .discriminants(self.tcx)
                            .map(|(vi, d)| format!("{}:{}", esc(&d.val.to_string()), esc(def.variant(vi).name.as_str())))
                            .collect();
                        vs = format!(",\"d\":{},\"vs\":{{{}}}", esc(&self.did(def.did())), v.join(","));
                    }
                }
                let ti = self.ty(pt);
                format!("{{\"k\":\"disc\",\"p\":{},\"ty\":{}{}}}", self.place(body, p), ti, vs)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":[{{\"k\":\"p\",\"p\":{}}}]}}", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", m.is_mut(), self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(env, body, o)).collect();
                let h = match &**k {
                    AggregateKind::Array(_) => "\"g\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"g\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let names: Vec<String> = match af {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!(
                            "\"g\":\"adt\",\"d\":{},\"v\":{},\"f\":[{}]",
                            esc(&self.did(*d)),
                            esc(var.name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("\"g\":\"closure\",\"d\":{}", esc(&self.did(*d))),
                    AggregateKind::Coroutine(d, _) => format!("\"g\":\"coroutine\",\"d\":{}", esc(&self.did(*d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("\"g\":\"closure\",\"d\":{}", esc(&self.did(*d))),
                    AggregateKind::RawPtr(..) => "\"g\":\"rawptr\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"o\":[{}]}}", h, v.join(","))
            }
            Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"d\":{}}}", esc(&self.did(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("{{\"k\":\"use\",\"o\":[{}]}}", self.op(env, body, o)),
        }
    }

    fn body(&mut self, id: &str, body: &Body<'tcx>, extra: &str) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        let (file, line) = self.line(body.span);
        let mut j = format!("{{\"id\":{},\"file\":{},\"line\":{}", esc(id), esc(&file), line);
        j.push_str(extra);
        let _ = write!(j, ",\"argc\":{}", body.arg_count);
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upnames.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
                }
            }
        }
        j.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                j.push(',');
            }
            let t = self.ty(d.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(j, "[{},{}]", t, esc(n));
                }
                None => {
                    let _ = write!(j, "[{}]", t);
                }
            }
        }
        let _ = write!(j, "],\"dbg\":[{}]", upnames.join(","));
        j.push_str(",\"bbs\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                j.push(',');
            }
            if bb.is_cleanup {
                j.push_str("{\"cl\":1,\"s\":[],\"t\":{\"k\":\"cleanup\"}}");
                continue;
            }
            j.push_str("{\"s\":[");
            let mut first = true;
            for st in bb.statements.iter() {
                let txt = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let (_, l) = self.line(st.source_info.span);
                        let pl = self.place(body, p);
                        let rv = self.rvalue(env, body, r);
                        format!("{{\"k\":\"=\",\"l\":{},\"p\":{},\"r\":{}}}", l, pl, rv)
                    }
                    StatementKind::SetDiscriminant { place, .. } => {
                        format!("{{\"k\":\"sd\",\"p\":{}}}", self.place(body, place))
                    }
                    StatementKind::StorageDead(l) => format!("{{\"k\":\"dead\",\"p\":[{}]}}", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("{{\"k\":\"live\",\"p\":[{}]}}", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    j.push(',');
                }
                first = false;
                j.push_str(&txt);
            }
            j.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = term.source_info.span;
            let (_, l) = self.line(sp);
            let ex = self.exp(sp);
            let mut t = format!("{{\"l\":{}", l);
            if !ex.is_empty() {
                let _ = write!(t, ",\"x\":{}", esc(&ex));
            }
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(t, ",\"k\":\"goto\",\"to\":[{}]", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(env, body, discr);
                    let vals: Vec<String> = targets.iter().map(|(v, _)| format!("\"{}\"", v)).collect();
                    let tos: Vec<String> = targets.all_targets().iter().map(|b| b.as_usize().to_string()).collect();
                    let _ = write!(t, ",\"k\":\"switch\",\"o\":{},\"v\":[{}],\"to\":[{}]", o, vals.join(","), tos.join(","));
                }
                TerminatorKind::Return => t.push_str(",\"k\":\"return\",\"to\":[]"),
                TerminatorKind::Unreachable => t.push_str(",\"k\":\"unreachable\",\"to\":[]"),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    let _ = write!(t, ",\"k\":\"drop\",\"p\":{},\"to\":[{}]", p, target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(env, body, func);
                    let a: Vec<String> = args.iter().map(|a| self.op(env, body, &a.node)).collect();
                    let d = self.place(body, destination);
                    let to = target.map(|b| b.as_usize().to_string()).unwrap_or_default();
                    let _ = write!(t, ",\"k\":\"call\",\"f\":{},\"args\":[{}],\"d\":{},\"to\":[{}]", f, a.join(","), d, to);
                }
                TerminatorKind::TailCall { .. } => t.push_str(",\"k\":\"tail\",\"to\":[]"),
                TerminatorKind::Assert { cond, msg, target, .. } => {
                    let o = self.op(env, body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let _ = write!(t, ",\"k\":\"assert\",\"m\":\"{}\",\"o\":{},\"to\":[{}]", m, o, target.as_usize());
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let o = self.op(env, body, value);
                    let p = self.place(body, resume_arg);
                    let _ = write!(t, ",\"k\":\"yield\",\"o\":{},\"d\":{},\"to\":[{}]", o, p, resume.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(t, ",\"k\":\"goto\",\"to\":[{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(t, ",\"k\":\"goto\",\"to\":[{}]", real_target.as_usize());
                }
                _ => t.push_str(",\"k\":\"other\",\"to\":[]"),
            }
            t.push('}');
            j.push_str(&t);
            j.push('}');
        }
        j.push_str("]}");
        j
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(override_queries);
        // make cargo's freshness check depend on a per-run nonce, so that the workspace crates
        // are re-analysed on every run
        config.track_state = Some(Box::new(|sess: &Session| {
            let v = std::env::var("ANNISFACTS_NONCE").ok().map(|v| rustc_span::Symbol::intern(&v));
            sess.env_depinfo.borrow_mut().insert((rustc_span::Symbol::intern("ANNISFACTS_NONCE"), v));
        }));
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Ctx { tcx, tys: HashMap::new(), ty_json: vec![] };
        let mut out = String::new();
        out.push_str("{\"crate\":");
        out.push_str(&esc(&krate));
        out.push_str(",\"bodies\":[");
        let mut first = true;
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for def in keys {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            if tcx.is_trivial_const(def) {
                continue;
            }
            if !matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }
            ) {
                continue;
            }
            let _ = tcx.mir_drops_elaborated_and_const_checked(def);
            let body: Option<Body<'tcx>> = BODIES.with(|m| {
                m.borrow().get(&def).map(|b| unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b.clone()) })
            });
            let Some(body) = body else { continue };
            let id = cx.did(did);
            let name = with_no_trimmed_paths!(tcx.def_path_str(did));
            let mut extra = format!(",\"name\":{}", esc(&format!("{}::{}", krate, name)));
            let kn = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Static { .. } => "static",
                _ => "const",
            };
            let _ = write!(extra, ",\"kind\":\"{}\"", kn);
            let par = tcx.opt_parent(did).map(|p| cx.did(p)).unwrap_or_default();
            let _ = write!(extra, ",\"parent\":{}", esc(&par));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.effective_visibilities(());
                let _ = write!(
                    extra,
                    ",\"pub\":{},\"reach\":{},\"async\":{},\"m\":{}",
                    tcx.visibility(did).is_public(),
                    vis.is_reachable(def),
                    tcx.asyncness(did).is_async(),
                    esc(tcx.item_name(did).as_str())
                );
                let attrs = tcx.codegen_fn_attrs(did);
                let nm = attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
                let abi = format!("{:?}", tcx.fn_sig(did).skip_binder().abi());
                let _ = write!(extra, ",\"nomangle\":{},\"abi\":{}", nm, esc(&abi));
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let _ = write!(extra, ",\"impl\":{}", esc(&cx.did(imp)));
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(st);
                    let _ = write!(extra, ",\"selfty\":{}", t);
                    if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                        let _ = write!(extra, ",\"trait\":{}", esc(&cx.did(tr)));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = write!(extra, ",\"trait\":{},\"default\":true", esc(&cx.did(tr)));
                }
            }
            if kn == "closure" || kn == "coroutine" {
                let names: Vec<String> = tcx
                    .closure_saved_names_of_captured_variables(did)
                    .iter()
                    .map(|n| esc(n.as_str()))
                    .collect();
                let _ = write!(extra, ",\"caps\":[{}]", names.join(","));
            }
            if !first {
                out.push(',');
            }
            first = false;
            let b = cx.body(&id, &body, &extra);
            out.push_str(&b);
            // promoted constants of this body
            let proms = tcx.promoted_mir(did);
            for (pi, pb) in proms.iter_enumerated() {
                let pid = format!("{}#p{}", id, pi.as_usize());
                let b = cx.body(&pid, pb, &format!(",\"kind\":\"promoted\",\"name\":{},\"parent\":{}", esc(&pid), esc(&id)));
                out.push(',');
                out.push_str(&b);
            }
        }
        out.push_str("],\"adts\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let def = tcx.adt_def(did);
            if !first {
                out.push(',');
            }
            first = false;
            let (file, line) = cx.line(tcx.def_span(did));
            let _ = write!(
                out,
                "{{\"id\":{},\"enum\":{},\"file\":{},\"line\":{},\"variants\":[",
                esc(&cx.did(did)),
                def.is_enum(),
                esc(&file),
                line
            );
            for (vi, v) in def.variants().iter_enumerated() {
                if vi.as_usize() > 0 {
                    out.push(',');
                }
                let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                let _ = write!(out, "{{\"n\":{},\"d\":\"{}\",\"f\":[", esc(v.name.as_str()), disc);
                for (fi, f) in v.fields.iter().enumerate() {
                    if fi > 0 {
                        out.push(',');
                    }
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(ft);
                    let _ = write!(out, "[{},{},{}]", esc(f.name.as_str()), t, f.vis.is_public());
                }
                out.push_str("]}");
            }
            out.push_str("]}");
        }
        out.push_str("],\"traits\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if tcx.def_kind(did) != DefKind::Trait {
                continue;
            }
            if !first {
                out.push(',');
            }
            first = false;
            let _ = write!(out, "{{\"id\":{},\"items\":[", esc(&cx.did(did)));
            let mut f2 = true;
            for it in tcx.associated_items(did).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                if !f2 {
                    out.push(',');
                }
                f2 = false;
                let _ = write!(
                    out,
                    "{{\"n\":{},\"id\":{},\"default\":{}}}",
                    esc(it.name().as_str()),
                    esc(&cx.did(it.def_id)),
                    it.defaultness(tcx).has_value()
                );
            }
            out.push_str("]}");
        }
        out.push_str("],\"impls\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
                continue;
            }
            if !first {
                out.push(',');
            }
            first = false;
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = cx.ty(st);
            let (file, line) = cx.line(tcx.def_span(did));
            let _ = write!(out, "{{\"id\":{},\"self\":{},\"file\":{},\"line\":{}", esc(&cx.did(did)), t, esc(&file), line);
            if let Some(tr) = tcx.impl_opt_trait_id(did) {
                let _ = write!(out, ",\"trait\":{}", esc(&cx.did(tr)));
            }
            out.push_str(",\"items\":[");
            let mut f2 = true;
            for it in tcx.associated_items(did).in_definition_order() {
                if !matches!(it.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                if !f2 {
                    out.push(',');
                }
                f2 = false;
                let ti = it.trait_item_def_id().map(|d| esc(&cx.did(d))).unwrap_or("null".into());
                let _ = write!(out, "{{\"n\":{},\"id\":{},\"of\":{}}}", esc(it.name().as_str()), esc(&cx.did(it.def_id)), ti);
            }
            out.push_str("]}");
        }
        out.push_str("],\"types\":[");
        out.push_str(&cx.ty_json.join(","));
        out.push_str("]}");
        BODIES.with(|m| m.borrow_mut().clear());
        let dir = std::path::PathBuf::from(&self.out);
        let _ = std::fs::create_dir_all(&dir);
        let ct = tcx.crate_types().first().map(|c| format!("{:?}", c)).unwrap_or_default();
        let f = dir.join(format!("{}-{}.json", krate, ct));
        std::fs::write(&f, out).expect("cannot write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of the real rustc as first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print") || a == "--version");
    match std::env::var("ANNISFACTS_OUT") {
        Ok(out) if !is_query => {
            let mut cb = Cb { out };
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
        }
        _ => {
            struct No;
            impl rustc_driver::Callbacks for No {}
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut No))
        }
    }
}
