//! rustc driver that type-checks a crate exactly as cargo would and dumps its MIR (resolved
//! callees, types, constants, promoteds) as JSON. It never executes any of the code it analyses.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => {{
    let mut s = String::from("{"); let mut first = true;
    $( if !first { s.push(','); } first = false; s.push_str(&esc($k)); s.push(':'); s.push_str(&$v); )*
    let _ = first; s.push('}'); s }} }
fn bytes_json(b: &[u8]) -> String {
    arr(b.iter().map(|x| x.to_string()))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(format!("{}", t))))
    }
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        esc(&format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let mut discr: Vec<String> = Vec::new();
        if def.is_enum() {
            for (_, d) in def.discriminants(self.tcx) {
                discr.push(d.val.to_string());
            }
        } else {
            discr.push("0".into());
        }
        let vs = arr(def.variants().iter().enumerate().map(|(i, v)| {
            obj! {"n": esc(v.name.as_str()), "d": discr.get(i).cloned().unwrap_or("0".into()),
                  "f": arr(v.fields.iter().map(|f| esc(f.name.as_str())))}
        }));
        let j = obj! {"p": esc(&self.name(def.did())), "kind": esc(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"}), "local": def.did().is_local().to_string(), "v": vs};
        self.adts.insert(def.did(), j);
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = x.as_const() {
                let s = match c.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => format!("{}", c),
                };
                v.push(obj! {"c": esc(&s)});
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = esc(&self.tystr(t));
        let j = match t.kind() {
            TyKind::Adt(d, a) => {
                self.adt(*d);
                let p = esc(&self.name(d.did()));
                let a = self.args(a);
                obj! {"k": esc("adt"), "p": p, "a": a, "s": s}
            }
            TyKind::Ref(_, t, m) => {
                let t = self.ty(*t).to_string();
                obj! {"k": esc("ref"), "m": (m.is_mut() as u8).to_string(), "t": t, "s": s}
            }
            TyKind::RawPtr(t, _) => {
                let t = self.ty(*t).to_string();
                obj! {"k": esc("ptr"), "t": t, "s": s}
            }
            TyKind::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                obj! {"k": esc("tuple"), "a": arr(v), "s": s}
            }
            TyKind::Slice(t) => {
                let t = self.ty(*t).to_string();
                obj! {"k": esc("slice"), "t": t, "s": s}
            }
            TyKind::Array(t, n) => {
                let t = self.ty(*t).to_string();
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                obj! {"k": esc("array"), "t": t, "n": n, "s": s}
            }
            TyKind::Closure(d, a) => {
                let up: Vec<_> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                obj! {"k": esc("closure"), "p": esc(&self.key(*d)), "up": arr(up), "s": s}
            }
            TyKind::FnDef(d, a) => {
                let f = self.fnref(*d, self.tcx.erase_and_anonymize_regions(*a).skip_binder(), None);
                obj! {"k": esc("fndef"), "f": f, "s": s}
            }
            TyKind::Param(p) => obj! {"k": esc("param"), "n": esc(p.name.as_str()), "s": s},
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
                obj! {"k": esc("prim"), "s": s}
            }
            _ => obj! {"k": esc("other"), "s": s},
        };
        self.type_json[i] = j;
        i
    }
    fn def_info(&mut self, d: DefId) -> (String, String) {
        (esc(&self.key(d)), esc(&self.name(d)))
    }
    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        let (key, name) = self.def_info(d);
        let args = self.args(a);
        let mut tr = "null".to_string();
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = esc(&self.name(t));
        }
        let item = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { esc(tcx.item_name(d).as_str()) } else { "null".into() };
        let mut imp = "null".to_string();
        if let Some(id) = tcx.impl_of_assoc(d) {
            let st = self.tystr(tcx.type_of(id).instantiate_identity().skip_norm_wip());
            imp = esc(&st);
        }
        let mut res = "null".to_string();
        let mut inner = "null".to_string();
        if let Some(env) = env {
            if let Some(s) = self.resolve(d, a, env) {
                res = s;
            }
            // blanket conversions: follow them to the implementation they forward to
            let path = self.name(d);
            let fwd: Option<(&str, bool)> = match path.as_str() {
                "core::convert::TryInto::try_into" => Some(("try_from", true)),
                "core::convert::Into::into" => Some(("from", true)),
                _ => None,
            };
            if let Some((m, _)) = fwd {
                if let (Some(t), Some(u)) = (a.get(0).and_then(|x| x.as_type()), a.get(1).and_then(|x| x.as_type())) {
                    let lang = if m == "from" { rustc_span::sym::From } else { rustc_span::sym::TryFrom };
                    if let Some(trd) = tcx.get_diagnostic_item(lang) {
                        if let Some(it) = tcx.associated_items(trd).in_definition_order().find(|i| i.name().as_str() == m) {
                            let na = tcx.mk_args(&[u.into(), t.into()]);
                            if let Some(s) = self.resolve(it.def_id, na, env) {
                                inner = s;
                            }
                        }
                    }
                }
            }
        }
        obj! {"key": key, "name": name, "args": args, "trait": tr, "item": item, "impl": imp, "local": d.is_local().to_string(), "res": res, "inner": inner}
    }
    fn resolve(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            return None;
        }
        let a = tcx.erase_and_anonymize_regions(a);
        let inst = match ty::Instance::try_resolve(tcx, env, d, a) {
            Ok(Some(i)) => i,
            _ => return None,
        };
        let rd = inst.def_id();
        let (k, n) = self.def_info(rd);
        let ia = self.args(inst.args);
        let kind = match inst.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Virtual(..) => "virtual",
            _ => "shim",
        };
        let derived = tcx.impl_of_assoc(rd).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false);
        Some(obj! {"key": k, "name": n, "args": ia, "kind": esc(kind), "local": rd.is_local().to_string(), "derived": derived.to_string()})
    }
    fn place(&mut self, p: &mir::Place<'tcx>, body: &mir::Body<'tcx>) -> String {
        let mut v = Vec::new();
        for (base, e) in p.iter_projections() {
            v.push(match e {
                mir::ProjectionElem::Deref => {
                    let bt = base.ty(body, self.tcx).ty;
                    let b = self.ty(bt).to_string();
                    obj! {"e": esc("deref"), "t": b}
                }
                mir::ProjectionElem::Field(i, t) => {
                    let t = self.ty(t).to_string();
                    obj! {"e": esc("field"), "i": i.as_usize().to_string(), "t": t}
                }
                mir::ProjectionElem::Index(l) => obj! {"e": esc("index"), "l": l.as_usize().to_string()},
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    obj! {"e": esc("cindex"), "o": offset.to_string(), "m": min_length.to_string(), "fe": from_end.to_string()}
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"e": esc("subslice"), "from": from.to_string(), "to": to.to_string(), "fe": from_end.to_string()}
                }
                mir::ProjectionElem::Downcast(n, i) => {
                    obj! {"e": esc("downcast"), "i": i.as_usize().to_string(), "n": n.map(|n| esc(n.as_str())).unwrap_or("null".into())}
                }
                _ => obj! {"e": esc("opaque")},
            });
        }
        obj! {"l": p.local.as_usize().to_string(), "p": arr(v)}
    }
    fn constval(&mut self, cv: mir::ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t).to_string();
        if let TyKind::FnDef(d, a) = t.kind() {
            let _ = (d, a);
            return obj! {"k": esc("fn"), "ty": tid};
        }
        // &str and &[u8; N] / &[u8]
        if let TyKind::Ref(_, inner, _) = t.kind() {
            if inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8) {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    if inner.is_str() {
                        return obj! {"k": esc("str"), "v": esc(&String::from_utf8_lossy(b)), "ty": tid};
                    }
                    return obj! {"k": esc("bytes"), "v": bytes_json(b), "ty": tid};
                }
            }
            if let TyKind::Array(e, n) = inner.kind() {
                if *e == tcx.types.u8 {
                    if let (mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (cv, n.try_to_target_usize(tcx)) {
                        let (prov, off) = p.into_raw_parts();
                        if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                            let o = off.bytes() as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize).to_vec();
                            return obj! {"k": esc("bytes"), "v": bytes_json(&b), "ty": tid};
                        }
                    }
                }
            }
        }
        match cv {
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let v = match t.kind() {
                    TyKind::Int(_) => i.to_int(i.size()).to_string(),
                    TyKind::Float(_) => esc(&format!("{:?}", i)),
                    _ => i.to_uint(i.size()).to_string(),
                };
                obj! {"k": esc("int"), "v": v, "ty": tid}
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, _) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    mir::interpret::GlobalAlloc::Static(d) => obj! {"k": esc("static"), "key": esc(&self.key(d)), "name": esc(&self.name(d)), "ty": tid},
                    _ => obj! {"k": esc("ptr"), "ty": tid},
                }
            }
            mir::ConstValue::ZeroSized => obj! {"k": esc("zst"), "ty": tid},
            _ => obj! {"k": esc("opaque"), "ty": tid, "s": esc(&format!("{:?}", cv))},
        }
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t).to_string();
        if let TyKind::FnDef(d, a) = t.kind() {
            let f = self.fnref(*d, a.skip_binder(), Some(env));
            return obj! {"k": esc("fn"), "f": f, "ty": tid};
        }
        match c.const_ {
            mir::Const::Val(cv, t) => self.constval(cv, t),
            mir::Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_value() {
                    if let Some(b) = v.try_to_raw_bytes(tcx) {
                        return obj! {"k": esc("rawbytes"), "v": bytes_json(b), "ty": tid};
                    }
                }
                match ct.try_to_target_usize(tcx) {
                    Some(n) => obj! {"k": esc("int"), "v": n.to_string(), "ty": tid},
                    None => obj! {"k": esc("opaque"), "ty": tid, "s": esc(&format!("{}", ct))},
                }
            }
            mir::Const::Unevaluated(u, t) => {
                if u.def.is_local() {
                    let p = u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into());
                    let args = self.args(u.args);
                    return obj! {"k": esc("uneval"), "key": esc(&self.key(u.def)), "name": esc(&self.name(u.def)), "promoted": p, "args": args, "ty": tid};
                }
                match tcx.const_eval_resolve(env, u, rustc_span::DUMMY_SP) {
                    Ok(cv) => self.constval(cv, t),
                    Err(_) => obj! {"k": esc("opaque"), "ty": tid, "s": esc(&self.name(u.def))},
                }
            }
        }
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => obj! {"o": esc("copy"), "p": self.place(p, body)},
            mir::Operand::Move(p) => obj! {"o": esc("move"), "p": self.place(p, body)},
            mir::Operand::Constant(c) => obj! {"o": esc("const"), "c": self.constant(c, env)},
            _ => {
                let t = self.ty(self.tcx.types.bool).to_string();
                obj! {"o": esc("const"), "c": obj!{"k": esc("int"), "v": "0".to_string(), "ty": t}}
            }
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            mir::Rvalue::Use(o, ..) => obj! {"r": esc("use"), "o": self.operand(o, body, env)},
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                obj! {"r": esc("repeat"), "o": self.operand(o, body, env), "n": n}
            }
            mir::Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                obj! {"r": esc("ref"), "m": (m as u8).to_string(), "p": self.place(p, body)}
            }
            mir::Rvalue::Reborrow(_, m, p) => obj! {"r": esc("reborrow"), "m": (m.is_mut() as u8).to_string(), "p": self.place(p, body)},
            mir::Rvalue::RawPtr(_, p) => obj! {"r": esc("ref"), "m": "1".to_string(), "p": self.place(p, body)},
            mir::Rvalue::ThreadLocalRef(d) => obj! {"r": esc("tls"), "key": esc(&self.key(*d))},
            mir::Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t).to_string();
                obj! {"r": esc("cast"), "k": esc(&format!("{:?}", k)), "o": self.operand(o, body, env), "t": t}
            }
            mir::Rvalue::BinaryOp(op, b) => {
                obj! {"r": esc("bin"), "op": esc(&format!("{:?}", op)), "a": self.operand(&b.0, body, env), "b": self.operand(&b.1, body, env)}
            }
            mir::Rvalue::UnaryOp(op, a) => obj! {"r": esc("un"), "op": esc(&format!("{:?}", op)), "a": self.operand(a, body, env)},
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t).to_string();
                obj! {"r": esc("discr"), "p": self.place(p, body), "t": t}
            }
            mir::Rvalue::CopyForDeref(p) => obj! {"r": esc("use"), "o": obj!{"o": esc("copy"), "p": self.place(p, body)}},
            mir::Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.operand(o, body, env)).collect::<Vec<_>>());
                match &**k {
                    mir::AggregateKind::Array(_) => obj! {"r": esc("agg"), "k": esc("array"), "ops": ops},
                    mir::AggregateKind::Tuple => obj! {"r": esc("agg"), "k": esc("tuple"), "ops": ops},
                    mir::AggregateKind::Adt(d, v, a, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(a);
                        obj! {"r": esc("agg"), "k": esc("adt"), "p": esc(&self.name(*d)), "v": v.as_usize().to_string(), "a": a,
                              "vn": esc(def.variant(*v).name.as_str()), "active": active.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), "ops": ops}
                    }
                    mir::AggregateKind::Closure(d, _) => obj! {"r": esc("agg"), "k": esc("closure"), "p": esc(&self.key(*d)), "ops": ops},
                    _ => obj! {"r": esc("agg"), "k": esc("other"), "ops": ops},
                }
            }
            _ => obj! {"r": esc("opaque"), "s": esc(&format!("{:?}", r))},
        }
    }
    fn body(&mut self, def: DefId, body: &mir::Body<'tcx>, kind: &str, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def);
        let locals: Vec<_> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(obj! {"n": esc(v.name.as_str()), "p": self.place(p, body)});
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let rv = self.rvalue(&b.1, body, env);
                        st.push(obj! {"s": esc("=") , "p": self.place(&b.0, body), "r": rv, "at": self.loc(s.source_info.span)});
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(obj! {"s": esc("setdiscr"), "p": self.place(place, body), "v": variant_index.as_usize().to_string()});
                    }
                    mir::StatementKind::StorageDead(l) => st.push(obj! {"s": esc("dead"), "l": l.as_usize().to_string()}),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = self.loc(t.source_info.span);
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => obj! {"t": esc("goto"), "b": target.as_usize().to_string()},
                mir::TerminatorKind::FalseEdge { real_target, .. } => obj! {"t": esc("goto"), "b": real_target.as_usize().to_string()},
                mir::TerminatorKind::FalseUnwind { real_target, .. } => obj! {"t": esc("goto"), "b": real_target.as_usize().to_string()},
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let dt = self.ty(dt).to_string();
                    obj! {"t": esc("switch"), "o": self.operand(discr, body, env), "ty": dt,
                          "c": arr(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize()))), "d": targets.otherwise().as_usize().to_string(), "at": at}
                }
                mir::TerminatorKind::Return => obj! {"t": esc("return")},
                mir::TerminatorKind::Unreachable => obj! {"t": esc("unreachable"), "at": at},
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => obj! {"t": esc("resume")},
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let pt = self.ty(pt).to_string();
                    obj! {"t": esc("drop"), "p": self.place(place, body), "ty": pt, "b": target.as_usize().to_string(), "at": at}
                }
                mir::TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, body, env);
                    let a = arr(args.iter().map(|a| self.operand(&a.node, body, env)).collect::<Vec<_>>());
                    let at: Vec<_> = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t).to_string() }).collect();
                    let rt = destination.ty(body, tcx).ty;
                    let rt = self.ty(rt).to_string();
                    obj! {"t": esc("call"), "f": f, "a": a, "at_": arr(at), "d": self.place(destination, body), "rt": rt,
                          "b": target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), "at": self.loc(*fn_span)}
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => obj! {"k": esc("bounds"), "len": self.operand(len, body, env), "index": self.operand(index, body, env)},
                        mir::AssertKind::Overflow(op, a, b) => obj! {"k": esc("overflow"), "op": esc(&format!("{:?}", op)), "a": self.operand(a, body, env), "b": self.operand(b, body, env)},
                        m => obj! {"k": esc(&format!("{:?}", m).split('(').next().unwrap_or("?").to_string())},
                    };
                    obj! {"t": esc("assert"), "o": self.operand(cond, body, env), "e": expected.to_string(), "m": k, "b": target.as_usize().to_string(), "at": at}
                }
                k => obj! {"t": esc("other"), "s": esc(&format!("{:?}", k))},
            };
            blocks.push(obj! {"s": arr(st), "t": tj, "c": (bb.is_cleanup as u8).to_string()});
        }
        let generics = tcx.generics_of(def);
        let mut gn = Vec::new();
        let mut g = Some(generics);
        while let Some(x) = g {
            for p in x.own_params.iter().rev() {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    gn.push(esc(p.name.as_str()));
                }
            }
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        gn.reverse();
        let (k, n) = self.def_info(def);
        let mut imp = "null".to_string();
        if let Some(id) = tcx.impl_of_assoc(def) {
            let st = self.tystr(tcx.type_of(id).instantiate_identity().skip_norm_wip());
            let derived = tcx.is_builtin_derived(id);
            let tr = tcx.impl_opt_trait_ref(id).map(|t| {
                let t = tcx.erase_and_anonymize_regions(t.instantiate_identity().skip_norm_wip());
                esc(&ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(format!("{}", t.print_only_trait_path())))))
            }).unwrap_or("null".into());
            imp = obj! {"self": esc(&st), "trait": tr, "derived": derived.to_string()};
        }
        let item = if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { esc(tcx.item_name(def).as_str()) } else { "null".into() };
        let vis = esc(if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && tcx.effective_visibilities(()).is_reachable(def.expect_local()) { "reachable" } else { "private" });
        obj! {"key": k, "name": n, "kind": esc(kind), "promoted": promoted.map(|x| x.to_string()).unwrap_or("null".into()),
              "argc": body.arg_count.to_string(), "locals": arr(locals), "names": arr(names), "generics": arr(gn), "blocks": arr(blocks),
              "impl": imp, "item": item, "vis": vis, "at": self.loc(body.span)}
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("VP_DUMP_DIR") else { return Compilation::Continue };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if crate_name == "build_script_build" {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: Vec::new(), adts: HashMap::new() };
        let mut bodies = Vec::new();
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    let b = tcx.optimized_mir(d);
                    let kind = if matches!(tcx.def_kind(d), DefKind::Closure) { "closure" } else { "fn" };
                    bodies.push(cx.body(d, b, kind, None));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, p, "promoted", Some(i.as_usize())));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, b, "const", None));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, p, "promoted", Some(i.as_usize())));
                    }
                }
                _ => {}
            }
        }
        // public re-exports of every module, as name resolution sees them
        let mut reexports = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(ld) != DefKind::Mod {
                continue;
            }
            for ch in tcx.module_children_local(ld) {
                let Some(rd) = ch.res.opt_def_id() else { continue };
                if ch.reexport_chain.is_empty() || ch.vis != ty::Visibility::Public {
                    continue;
                }
                let module = esc(&cx.name(ld.to_def_id()));
                reexports.push(arr(vec![module, esc(ch.ident.name.as_str()), esc(&format!("{:?}", tcx.def_kind(rd))), esc(&cx.name(rd))]));
            }
        }
        let is_test = tcx.sess.is_test_crate();
        let ctypes: Vec<String> = tcx.crate_types().iter().map(|t| esc(&format!("{:?}", t))).collect();
        let adts = arr(cx.adts.values().cloned().collect::<Vec<_>>());
        let out = obj! {"crate": esc(&crate_name), "test": is_test.to_string(), "crate_types": arr(ctypes), "reexports": arr(reexports), "types": arr(cx.type_json.clone()), "adts": adts, "bodies": arr(bodies)};
        let bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let f = format!("{}/{}{}{}.json", dir, crate_name, if bin { ".bin" } else { "" }, if is_test { ".test" } else { "" });
        std::fs::write(&f, out).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    args.remove(0);
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
