//! Facts about the items of a generated module: unsafe constructs, statics, names of other crates.

use rustc_hir as hir;
use rustc_hir::def::Res;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};

pub struct Facts<'tcx> {
    tcx: TyCtxt<'tcx>,
    body: Option<hir::BodyId>,
    pub unsafes: Vec<String>,
    pub statics: Vec<String>,
    pub statics_seen: usize,
    pub bodies: usize,
    pub names: usize,
    pub ext: BTreeMap<String, BTreeSet<String>>,
    pub foreign_items: Vec<String>,
    pub narrow: Vec<String>,
    pub casts: usize,
    // elements written in arrays
    pub cells: usize,
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'tcx> Facts<'tcx> {
    pub fn of_module(tcx: TyCtxt<'tcx>, m: LocalDefId) -> Self {
        let mut f = Facts {
            tcx,
            body: None,
            unsafes: vec![],
            statics: vec![],
            statics_seen: 0,
            bodies: 0,
            names: 0,
            ext: BTreeMap::new(),
            foreign_items: vec![],
            narrow: vec![],
            casts: 0,
            cells: 0,
        };
        let (md, _) = tcx.hir_get_module(rustc_hir::def_id::LocalModId::new_unchecked(m));
        intravisit::walk_mod(&mut f, md);
        f
    }

    fn place(&self, sp: Span, d: LocalDefId) -> String {
        format!("{} in {}", self.tcx.sess.source_map().span_to_diagnostic_string(sp), self.tcx.def_path_str(d.to_def_id()))
    }

    fn def(&mut self, did: DefId) {
        self.names += 1;
        if did.is_local() {
            return;
        }
        let k = self.tcx.crate_name(did.krate).to_string();
        self.ext.entry(k).or_default().insert(self.tcx.def_path_str(did));
    }

    fn is_static_bad(&mut self, d: LocalDefId) {
        let tcx = self.tcx;
        let ty = tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip();
        self.statics_seen += 1;
        let name = tcx.def_path_str(d.to_def_id());
        if tcx.is_mutable_static(d.to_def_id()) {
            self.statics.push(format!("static mut {name}: {ty}"));
        } else if tcx.is_thread_local_static(d.to_def_id()) {
            self.statics.push(format!("thread local static {name}: {ty}"));
        } else if !ty.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
            self.statics.push(format!("static {name} with interior mutability: {ty}"));
        } else {
            // a raw pointer or a reference to something mutable would be shared too
            for a in ty.walk() {
                if let ty::GenericArgKind::Type(t) = a.kind() {
                    if matches!(t.kind(), TyKind::RawPtr(..) | TyKind::Ref(_, _, ty::Mutability::Mut)) {
                        self.statics.push(format!("static {name} with a pointer: {ty}"));
                    }
                }
            }
        }
    }

    pub fn json(&self) -> String {
        let l = |v: &Vec<String>| v.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        let e = self
            .ext
            .iter()
            .map(|(k, v)| format!("{}:[{}]", q(k), v.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",");
        format!(
            "{{\"unsafe\":[{}],\"statics\":[{}],\"foreign\":[{}],\"statics_seen\":{},\"bodies\":{},\"names\":{},\"casts\":{},\"cells\":{},\"narrow\":[{}],\"ext\":{{{}}}}}",
            l(&self.unsafes),
            l(&self.statics),
            l(&self.foreign_items),
            self.statics_seen,
            self.bodies,
            self.names,
            self.casts,
            self.cells,
            l(&self.narrow),
            e
        )
    }
}

impl<'tcx> Visitor<'tcx> for Facts<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_nested_body(&mut self, id: hir::BodyId) {
        let old = self.body.replace(id);
        self.bodies += 1;
        let b = self.tcx.hir_body(id);
        self.visit_body(b);
        self.body = old;
    }
    fn visit_item(&mut self, it: &'tcx hir::Item<'tcx>) {
        let d = it.owner_id.def_id;
        match &it.kind {
            hir::ItemKind::Static(..) => self.is_static_bad(d),
            hir::ItemKind::ExternCrate(..) => {
                let s = format!("extern crate {}", self.place(it.span, d));
                self.foreign_items.push(s);
            }
            hir::ItemKind::ForeignMod { .. } | hir::ItemKind::GlobalAsm { .. } => {
                let s = format!("foreign code at {}", self.place(it.span, d));
                self.unsafes.push(s);
            }
            hir::ItemKind::Impl(i) => {
                if let Some(of) = i.of_trait {
                    if of.safety == hir::Safety::Unsafe {
                        let s = format!("unsafe impl at {}", self.place(it.span, d));
                        self.unsafes.push(s);
                    }
                }
            }
            hir::ItemKind::Trait { safety, .. } => {
                if *safety == hir::Safety::Unsafe {
                    let s = format!("unsafe trait at {}", self.place(it.span, d));
                    self.unsafes.push(s);
                }
            }
            hir::ItemKind::Union(..) => {
                let s = format!("union at {}", self.place(it.span, d));
                self.unsafes.push(s);
            }
            _ => (),
        }
        intravisit::walk_item(self, it);
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, decl: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: Span, id: LocalDefId) {
        let h = match k {
            intravisit::FnKind::ItemFn(_, _, h) => Some(h),
            intravisit::FnKind::Method(_, s) => Some(s.header),
            intravisit::FnKind::Closure => None,
        };
        if let Some(h) = h {
            if h.is_unsafe() {
                let s = format!("unsafe fn at {}", self.place(sp, id));
                self.unsafes.push(s);
            }
        }
        intravisit::walk_fn(self, k, decl, b, id);
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let owner = b.hir_id.owner.def_id;
            let s = format!("unsafe block at {}", self.place(b.span, owner));
            self.unsafes.push(s);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_path(&mut self, p: &hir::Path<'tcx>, _id: hir::HirId) {
        for s in p.segments {
            if let Res::Def(_, did) = s.res {
                self.def(did);
            }
        }
        if let Res::Def(_, did) = p.res {
            self.def(did);
        }
        intravisit::walk_path(self, p);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::Array(xs) = &e.kind {
            self.cells += xs.len();
        }
        if let Some(b) = self.body {
            let t = self.tcx.typeck_body(b);
            if let Some(did) = t.type_dependent_def_id(e.hir_id) {
                self.def(did);
            }
            if let hir::ExprKind::Cast(x, _) = &e.kind {
                self.casts += 1;
                let w = |t: ty::Ty<'tcx>| match t.kind() {
                    TyKind::Int(i) => Some(i.bit_width().unwrap_or(64)),
                    TyKind::Uint(i) => Some(i.bit_width().unwrap_or(64)),
                    _ => None,
                };
                if let (Some(a), Some(c)) = (w(t.expr_ty(x)), w(t.expr_ty(e))) {
                    if c < 32 && c < a {
                        let s = format!("{} as {} at {}", t.expr_ty(x), t.expr_ty(e), self.place(e.span, e.hir_id.owner.def_id));
                        self.narrow.push(s);
                    }
                }
            }
            if let hir::ExprKind::Path(hir::QPath::TypeRelative(..)) = e.kind {
                if let Res::Def(_, did) = t.qpath_res(match &e.kind { hir::ExprKind::Path(q) => q, _ => unreachable!() }, e.hir_id) {
                    self.def(did);
                }
            }
        }
        intravisit::walk_expr(self, e);
    }
}
