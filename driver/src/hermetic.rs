//! Rules over the MIR of the macro's own crate: its output depends on nothing but its input.

use crate::facts::q;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

struct Fnd {
    rule: &'static str,
    func: String,
    line: String,
    msg: String,
}

struct Hermetic<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Fnd>,
    functions: usize,
    names: usize,
    unordered_sources: usize,
    unordered_sorted: usize,
    prints: usize,
    statics: usize,
    guard_paths: usize,
    // where every local function is mentioned: (function, block)
    callers: HashMap<DefId, Vec<(LocalDefId, Option<BasicBlock>)>>,
    verbose: HashSet<(DefId, usize)>,
    bodies: Vec<LocalDefId>,
}

/// functions whose results different values have in common
const LOSSY: &[&str] = &[
    "len", "count", "is_empty", "is_some", "is_none", "is_ok", "is_err", "first", "last", "next", "next_back", "nth", "min", "max", "starts_with", "ends_with", "contains", "contains_key",
    "find", "position", "any", "all", "eq", "ne", "rem", "div", "chars", "discriminant", "is_alphabetic", "is_uppercase", "is_lowercase", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
    "to_ascii_uppercase", "trim", "split", "cmp", "start", "end", "rem_euclid", "div_euclid", "leading_zeros", "trailing_zeros", "count_ones", "sum", "capacity",
];

fn raw_path(tcx: TyCtxt<'_>, did: DefId) -> String {
    format!("{}{}", tcx.crate_name(did.krate), tcx.def_path(did).to_string_no_crate_verbose())
}

fn loc(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", tcx.sess.source_map().filename_for_diagnostics(&l.file.name), l.line)
}

fn is_hash_container(tcx: TyCtxt<'_>, t: Ty<'_>) -> bool {
    if let TyKind::Adt(a, _) = t.kind() {
        let p = raw_path(tcx, a.did());
        return matches!(
            p.as_str(),
            "std::collections::hash::map::HashMap"
                | "std::collections::hash::set::HashSet"
                | "hashbrown::map::HashMap"
                | "hashbrown::set::HashSet"
                | "hashbrown::table::HashTable"
                | "alloc::collections::binary_heap::BinaryHeap"
        );
    }
    false
}

fn is_ordered_container(tcx: TyCtxt<'_>, t: Ty<'_>) -> bool {
    if let TyKind::Adt(a, _) = t.kind() {
        let p = raw_path(tcx, a.did());
        return p == "alloc::collections::btree::map::BTreeMap" || p == "alloc::collections::btree::set::BTreeSet" || is_hash_container(tcx, t);
    }
    false
}

/// the type mentions an iterator over a hash container
fn has_hash_iter<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    for a in t.walk() {
        if let ty::GenericArgKind::Type(t) = a.kind() {
            if let TyKind::Adt(a, _) = t.kind() {
                let p = raw_path(tcx, a.did());
                let hash = p.starts_with("std::collections::hash::") || p.starts_with("hashbrown::");
                if hash && !is_hash_container(tcx, t) {
                    let n = p.rsplit("::").next().unwrap();
                    if matches!(
                        n,
                        "Iter" | "IterMut" | "IntoIter" | "Keys" | "Values" | "ValuesMut" | "IntoKeys" | "IntoValues" | "Drain" | "ExtractIf"
                            | "Difference" | "Union" | "Intersection" | "SymmetricDifference" | "RawIter" | "RawDrain"
                    ) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

fn peel<'tcx>(mut t: Ty<'tcx>) -> Ty<'tcx> {
    while let TyKind::Ref(_, x, _) = t.kind() {
        t = *x;
    }
    t
}

fn peel_result<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    if let TyKind::Adt(a, args) = t.kind() {
        let p = raw_path(tcx, a.did());
        if p == "core::result::Result" || p == "core::option::Option" {
            return args.type_at(0);
        }
    }
    t
}

fn const_fn<'tcx>(c: &ConstOperand<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
    match c.const_.ty().kind() {
        TyKind::FnDef(d, a) => Some((*d, a.skip_binder())),
        _ => None,
    }
}

struct Mentions<'tcx, 'a> {
    h: &'a mut Hermetic<'tcx>,
    f: LocalDefId,
    body: &'tcx Body<'tcx>,
}

impl<'tcx, 'a> Visitor<'tcx> for Mentions<'tcx, 'a> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) {
        if let Some((d, args)) = const_fn(c) {
            self.h.names += 1;
            self.h.mention(self.f, self.body.source_info(l).span, d, args);
            if d.is_local() {
                self.h.callers.entry(d).or_default().push((self.f, Some(l.block)));
            }
        }
        if let TyKind::Closure(d, _) = c.const_.ty().kind() {
            self.h.callers.entry(*d).or_default().push((self.f, Some(l.block)));
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let sp = self.body.source_info(l).span;
        match r {
            Rvalue::ThreadLocalRef(d) => {
                let m = format!("uses the thread local {}", self.h.tcx.def_path_str(*d));
                self.h.find("state", self.f, sp, m);
            }
            Rvalue::Cast(CastKind::PointerExposeProvenance, _, t) => {
                let m = format!("turns an address into a value of type {t}");
                self.h.find("address", self.f, sp, m);
            }
            Rvalue::Aggregate(k, _) => {
                if let AggregateKind::Closure(d, _) = **k {
                    self.h.callers.entry(d).or_default().push((self.f, Some(l.block)));
                }
            }
            _ => (),
        }
        self.super_rvalue(r, l);
    }
}

impl<'tcx> Hermetic<'tcx> {
    fn find(&mut self, rule: &'static str, f: LocalDefId, sp: Span, msg: String) {
        let func = self.tcx.def_path_str(f.to_def_id());
        let line = loc(self.tcx, sp);
        self.out.push(Fnd { rule, func, line, msg });
    }

    /// a function named in a body, called or passed as a value
    fn mention(&mut self, f: LocalDefId, sp: Span, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        if d.is_local() {
            return;
        }
        let p = raw_path(tcx, d);
        let name = tcx.def_path_str(d);
        let self_ty = if args.len() > 0 { args[0].as_type() } else { None };
        for (pre, what) in [
            ("std::env::", "the environment"),
            ("std::fs::", "the file system"),
            ("std::time::", "the clock"),
            ("std::net::", "the network"),
            ("std::process::", "processes"),
            ("std::thread::", "threads or thread locals"),
            ("std::os::", "the operating system"),
            ("std::sys::", "the operating system"),
            ("std::backtrace", "the call stack"),
            ("std::path::", ""),
            ("libc::", "the operating system"),
            ("getrandom::", "random numbers"),
            ("rand::", "random numbers"),
            ("rand_core::", "random numbers"),
        ] {
            if p.starts_with(pre) && !what.is_empty() {
                // path manipulation and exit codes are pure; everything else in these modules is an effect
                self.find("effect", f, sp, format!("uses {what} through {name}"));
                return;
            }
        }
        if p.starts_with("std::path::") && ["exists", "is_file", "is_dir", "metadata", "read_dir", "canonicalize", "try_exists", "read_link", "symlink_metadata", "is_symlink"].iter().any(|n| p.ends_with(n)) {
            self.find("effect", f, sp, format!("uses the file system through {name}"));
            return;
        }
        if p.starts_with("std::io::stdio::") && (p.contains("stdin") || p.contains("Stdin") || p.contains("capture")) {
            self.find("effect", f, sp, format!("uses the standard streams through {name}"));
            return;
        }
        if p.starts_with("std::hash::random::") && self_ty.is_none_or(|_| true) && !name.contains("DefaultHasher") {
            self.find("effect", f, sp, format!("uses random hash seeds through {name}"));
            return;
        }
        if tcx.is_trait_like(d) {
            if let Some(t) = self_ty {
                let tp = match t.kind() {
                    TyKind::Adt(a, _) => raw_path(tcx, a.did()),
                    _ => String::new(),
                };
                if tp == "std::hash::random::RandomState" && (p.contains("BuildHasher")) {
                    self.find("effect", f, sp, format!("uses random hash seeds through {name}"));
                }
                if matches!(peel(t).kind(), TyKind::RawPtr(..)) && (p.contains("core::hash::Hash::") || p.contains("core::cmp::Ord::") || p.contains("core::cmp::PartialOrd::")) {
                    self.find("address", f, sp, format!("uses an address through {name}"));
                }
            }
        }
        if p.starts_with("proc_macro::") || p.starts_with("proc_macro2::") {
            let last = p.rsplit("::").next().unwrap();
            if p.contains("tracked") {
                self.find("effect", f, sp, format!("uses the environment through {name}"));
            }
            if name.contains("Span::") && ["line", "column", "file", "local_file", "byte_range", "start", "end", "source_file", "before", "after"].contains(&last) {
                self.find("effect", f, sp, format!("uses the place of the macro call through {name}"));
            }
        }
        if p.starts_with("alloc::collections::btree::") || p.starts_with("alloc::collections::binary_heap::") {
            if args.types().flat_map(|t| t.walk()).any(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => match t.kind() {
                    TyKind::RawPtr(..) | TyKind::FnPtr(..) => true,
                    TyKind::Adt(a, _) => {
                        let p = raw_path(tcx, a.did());
                        p.starts_with("by_address::") || p == "core::ptr::non_null::NonNull"
                    }
                    _ => false,
                },
                _ => false,
            }) {
                self.find("address", f, sp, format!("orders by address through {name}"));
            }
        }
        if p.ends_with("::new_pointer") || p.contains("core::fmt::Pointer::") {
            self.find("address", f, sp, format!("prints an address through {name}"));
        }
        if (p.contains("core::fmt::rt::") && p.ends_with("::new_debug")) || p == "core::fmt::Debug::fmt" {
            for a in args.iter() {
                if let Some(t) = a.as_type() {
                    // derived impls of Debug are only reached through one of the other uses
                    if p == "core::fmt::Debug::fmt" && self.in_debug_impl(f) {
                        continue;
                    }
                    if let Some(w) = self.debug_leak(t, 0, &mut HashSet::new()) {
                        self.find("debug", f, sp, format!("formats {t} with Debug, which shows {w}"));
                    }
                }
            }
        }
        if p.starts_with("core::intrinsics::transmute") || p.starts_with("core::mem::transmute") {
            self.find("address", f, sp, format!("reinterprets memory through {name}"));
        }
    }

    fn in_debug_impl(&self, f: LocalDefId) -> bool {
        let tcx = self.tcx;
        if let Some(imp) = tcx.impl_of_assoc(f.to_def_id()) {
            if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                return raw_path(tcx, t.skip_binder().def_id) == "core::fmt::Debug";
            }
        }
        false
    }

    fn debug_leak(&self, t: Ty<'tcx>, depth: u32, seen: &mut HashSet<Ty<'tcx>>) -> Option<String> {
        let tcx = self.tcx;
        if depth > 12 || !seen.insert(t) {
            return None;
        }
        match t.kind() {
            TyKind::Ref(_, x, _) | TyKind::Slice(x) | TyKind::Array(x, _) => self.debug_leak(*x, depth + 1, seen),
            TyKind::RawPtr(..) => Some("an address".into()),
            TyKind::Tuple(l) => l.iter().find_map(|x| self.debug_leak(x, depth + 1, seen)),
            TyKind::Adt(a, args) => {
                let p = raw_path(tcx, a.did());
                if p.starts_with("proc_macro2::Ident") || p.starts_with("proc_macro2::Span") || p.starts_with("proc_macro::Ident") || p.starts_with("proc_macro::Span")
                    || p.starts_with("syn::") && !p.starts_with("syn::error")
                    || (p.starts_with("proc_macro") && (p.contains("Token") || p.contains("Group") || p.contains("Punct") || p.contains("Literal")))
                {
                    return Some(format!("the place of the macro call, from {p}"));
                }
                if is_hash_container(tcx, t) {
                    return Some("the order of a hash container".into());
                }
                for x in args.types() {
                    if let Some(w) = self.debug_leak(x, depth + 1, seen) {
                        return Some(w);
                    }
                }
                if a.did().is_local() {
                    for f in a.all_fields() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        if let Some(w) = self.debug_leak(ft, depth + 1, seen) {
                            return Some(w);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- statics

    fn statics(&mut self) {
        let tcx = self.tcx;
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Static { .. }) {
                continue;
            }
            self.statics += 1;
            let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
            let sp = tcx.def_span(id.to_def_id());
            if tcx.is_mutable_static(id.to_def_id()) {
                self.find("state", id, sp, "a mutable static keeps state between expansions".into());
            } else if tcx.is_thread_local_static(id.to_def_id()) || !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                self.find("state", id, sp, format!("a static with interior mutability ({t}) keeps state between expansions"));
            }
        }
    }

    // ---------------------------------------------------------------- unordered iteration

    fn root(&self, alias: &HashMap<Local, Local>, mut l: Local) -> Local {
        let mut n = 0;
        while let Some(x) = alias.get(&l) {
            l = *x;
            n += 1;
            if n > 50 {
                break;
            }
        }
        l
    }

    fn order(&mut self, f: LocalDefId, body: &'tcx Body<'tcx>) {
        let tcx = self.tcx;
        // references to whole locals stand for them
        let mut alias: HashMap<Local, Local> = HashMap::new();
        let mut ndef: HashMap<Local, usize> = HashMap::new();
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    *ndef.entry(b.0.local).or_default() += 1;
                }
            }
            if let TerminatorKind::Call { destination, .. } = &bb.terminator().kind {
                *ndef.entry(destination.local).or_default() += 1;
            }
        }
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    let (pl, rv) = &**b;
                    if !pl.projection.is_empty() || ndef[&pl.local] != 1 {
                        continue;
                    }
                    match rv {
                        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::CopyForDeref(p) => {
                            alias.insert(pl.local, p.local);
                        }
                        Rvalue::Use(o, _) | Rvalue::Cast(_, o, _) => {
                            if let Some(p) = o.place() {
                                if body.local_decls[pl.local].ty.is_ref() {
                                    alias.insert(pl.local, p.local);
                                }
                            }
                        }
                        _ => (),
                    }
                }
            }
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator().kind {
                if let Some((d, _)) = func.constant().and_then(const_fn) {
                    let p = raw_path(tcx, d);
                    let n = p.rsplit("::").next().unwrap();
                    if ["deref", "deref_mut", "index", "index_mut", "as_mut", "as_ref", "as_mut_slice", "as_slice", "borrow", "borrow_mut", "by_ref"].contains(&n)
                        && destination.projection.is_empty()
                        && ndef[&destination.local] == 1
                        && body.local_decls[destination.local].ty.is_ref()
                    {
                        if let Some(p) = args.first().and_then(|a| a.node.place()) {
                            alias.insert(destination.local, p.local);
                        }
                    }
                }
            }
        }
        let cyc = sccs(body);
        // forward dataflow: roots that hold values in an unspecified order
        let n = body.basic_blocks.len();
        let mut at: Vec<Option<BTreeSet<Local>>> = vec![None; n];
        at[0] = Some(BTreeSet::new());
        let mut todo = vec![START_BLOCK];
        let mut found: BTreeMap<(usize, &'static str), (Span, String)> = BTreeMap::new();
        let mut sources = BTreeSet::new();
        let mut sorted = BTreeSet::new();
        while let Some(b) = todo.pop() {
            let mut st = at[b.index()].clone().unwrap();
            let bb = &body.basic_blocks[b];
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    let (pl, rv) = &**x;
                    let mut tainted = false;
                    let mut ops = vec![];
                    match rv {
                        Rvalue::Use(o, _) | Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) => ops.extend(o.place()),
                        Rvalue::Ref(_, _, p) | Rvalue::CopyForDeref(p) | Rvalue::RawPtr(_, p) => ops.push(*p),
                        Rvalue::Aggregate(_, os) => ops.extend(os.iter().filter_map(|o| o.place())),
                        _ => (),
                    }
                    for p in ops {
                        if st.contains(&self.root(&alias, p.local)) {
                            tainted = true;
                        }
                    }
                    let r = self.root(&alias, pl.local);
                    if tainted {
                        if pl.is_indirect() || (r.index() >= 1 && r.index() <= body.arg_count) {
                            found.insert((b.index(), "order"), (s.source_info.span, "stores a collection in hash order".into()));
                        } else {
                            st.insert(r);
                        }
                    } else if pl.projection.is_empty() && !alias.contains_key(&pl.local) {
                        st.remove(&pl.local);
                    }
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            match &term.kind {
                TerminatorKind::Call { func, args, destination, .. } => {
                    let fd = func.constant().and_then(const_fn);
                    let roots: Vec<Option<Local>> = args.iter().map(|a| a.node.place().map(|p| self.root(&alias, p.local))).collect();
                    let tys: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(&body.local_decls, tcx)).collect();
                    let taint: Vec<bool> = roots.iter().map(|r| r.is_some_and(|r| st.contains(&r))).collect();
                    let any = taint.iter().any(|x| *x);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let droot = self.root(&alias, destination.local);
                    let (p, d) = match fd {
                        Some((d, _)) => (raw_path(tcx, d), Some(d)),
                        None => (String::new(), None),
                    };
                    let name = p.rsplit("::").next().unwrap_or("").to_string();
                    let is_local = d.is_none_or(|d| d.is_local());
                    let mut clean_dest = true;
                    let mut set_dest = false;
                    // a collection used as a sequence by something that is not one of its own functions
                    let mut source = has_hash_iter(tcx, dty) && !any;
                    let own = p.starts_with("std::collections::hash::") || p.starts_with("hashbrown::") || p.starts_with("alloc::collections::binary_heap");
                    let hash_arg = tys.iter().enumerate().any(|(i, t)| {
                        let _ = i;
                        is_hash_container(tcx, peel(*t))
                    });
                    if !own && !is_local && hash_arg && ["into_iter", "extend", "from_iter", "collect", "zip", "chain", "eq", "cmp", "partial_cmp"].contains(&name.as_str()) {
                        // `extend` into a hash or ordered container is fine, and so is comparing two of them
                        let second = tys.iter().skip(if name == "extend" { 1 } else { 0 }).any(|t| is_hash_container(tcx, peel(*t)));
                        if second && !["eq", "cmp", "partial_cmp"].contains(&name.as_str()) && !(name == "extend" && is_ordered_container(tcx, peel(tys[0]))) {
                            source = true;
                            if name == "extend" {
                                if let Some(r) = roots[0] {
                                    st.insert(r);
                                }
                            }
                        }
                    }
                    if source && !(["collect", "from_iter"].contains(&name.as_str()) && is_ordered_container(tcx, peel_result(tcx, dty))) {
                        sources.insert(b.index());
                        set_dest = true;
                    }
                    if any {
                        if name.starts_with("sort") {
                            if let Some(Some(r)) = roots.first() {
                                if taint[0] {
                                    let key = tys.get(1).and_then(|t| match t.kind() {
                                        TyKind::Closure(d, _) | TyKind::FnDef(d, _) => Some(*d),
                                        _ => None,
                                    });
                                    if key.is_some_and(|k| !self.tells_apart(k, name.contains("key"))) {
                                        found.insert((b.index(), "order"), (sp, format!("{name} with a key that different elements can have in common leaves them in hash order")));
                                    }
                                    st.remove(r);
                                    sorted.insert(b.index());
                                }
                            }
                        } else if ["count", "any", "all", "max", "min", "sum", "product", "len", "is_empty", "size_hint", "contains", "clear", "capacity", "is_sorted", "is_some", "is_none", "drop", "with_capacity", "reserve", "sorted"].contains(&name.as_str())
                            && !is_local
                        {
                            // the order does not matter
                        } else if ["collect", "from_iter"].contains(&name.as_str()) && is_ordered_container(tcx, peel_result(tcx, dty)) {
                        } else if name == "extend" && !taint[0] && is_ordered_container(tcx, peel(tys[0])) {
                        } else if ["next", "next_back", "nth", "peek"].contains(&name.as_str()) && !is_local && dty_is_option(tcx, dty) {
                            match &cyc[b.index()] {
                                Some(c) => {
                                    if let Some((sp2, m)) = self.loop_rule(body, &alias, c, b, roots[0].unwrap(), &mut st) {
                                        found.insert((b.index(), "order"), (sp2, m));
                                    }
                                }
                                None => {
                                    found.insert((b.index(), "order"), (sp, format!("takes an element in hash order with {name}")));
                                }
                            }
                        } else if is_local {
                            found.insert((b.index(), "order"), (sp, format!("passes a sequence in hash order to {}", if p.is_empty() { "a function" } else { &p })));
                        } else if ["fold", "for_each", "try_for_each", "try_fold", "find", "find_map", "position", "last", "reduce", "max_by_key", "min_by_key", "max_by", "min_by", "cmp", "partial_cmp", "first", "get", "pop", "swap_remove", "remove", "join", "concat", "quote_into_iter", "to_tokens", "append_all", "append_separated", "append_terminated", "zip", "enumerate"].contains(&name.as_str()) {
                            found.insert((b.index(), "order"), (sp, format!("the result of {name} depends on the hash order")));
                        } else {
                            set_dest = true;
                            // other containers that are changed by the call
                            for (i, t) in tys.iter().enumerate() {
                                if !taint[i] {
                                    if let TyKind::Ref(_, x, m) = t.kind() {
                                        if m.is_mut() && !is_ordered_container(tcx, *x) {
                                            if let Some(r) = roots[i] {
                                                if r.index() >= 1 && r.index() <= body.arg_count {
                                                    found.insert((b.index(), "order"), (sp, format!("stores a sequence in hash order with {name}")));
                                                } else {
                                                    st.insert(r);
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if set_dest {
                        clean_dest = false;
                        if destination.is_indirect() {
                            found.insert((b.index(), "order"), (sp, "stores a sequence in hash order".into()));
                        } else {
                            st.insert(droot);
                        }
                    }
                    if clean_dest && destination.projection.is_empty() && !alias.contains_key(&destination.local) {
                        st.remove(&destination.local);
                    }
                }
                TerminatorKind::Return => {
                    if st.contains(&RETURN_PLACE) {
                        let closure_iter = tcx.is_closure_like(f.to_def_id()) && has_hash_iter(tcx, body.local_decls[RETURN_PLACE].ty);
                        if !closure_iter {
                            found.insert((b.index(), "order"), (sp, "returns a sequence in hash order".into()));
                        }
                    }
                }
                _ => (),
            }
            for s in term.successors() {
                if body.basic_blocks[s].is_cleanup {
                    continue;
                }
                let e = &mut at[s.index()];
                match e {
                    None => {
                        *e = Some(st.clone());
                        todo.push(s);
                    }
                    Some(o) => {
                        let k = o.len();
                        o.extend(st.iter().copied());
                        if o.len() != k {
                            todo.push(s);
                        }
                    }
                }
            }
        }
        self.unordered_sources += sources.len();
        self.unordered_sorted += sorted.len();
        for ((_, rule), (sp, m)) in found {
            self.find(rule, f, sp, m);
        }
    }

    /// does a key, or a comparison, tell different elements apart? (a part of an element does, what is computed from it with loss does not)
    fn tells_apart(&self, d: DefId, key: bool) -> bool {
        let tcx = self.tcx;
        let Some(l) = d.as_local() else {
            return !LOSSY.contains(&tcx.item_name(d).as_str());
        };
        if !tcx.is_mir_available(d) {
            return true;
        }
        let body = self.body_of(l);
        if key {
            return self.faithful(body, RETURN_PLACE, &mut HashMap::new(), 0);
        }
        // a comparison: one of the values it compares is faithful
        let mut seen = false;
        let mut todo = vec![body];
        while let Some(body) = todo.pop() {
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    if let StatementKind::Assign(x) = &s.kind {
                        match &x.1 {
                            Rvalue::BinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp, _) => return true,
                            Rvalue::Aggregate(k, _) => {
                                if let AggregateKind::Closure(c, _) = &**k {
                                    if let Some(c) = c.as_local() {
                                        todo.push(self.body_of(c));
                                    }
                                }
                            }
                            _ => (),
                        }
                    }
                }
                if let TerminatorKind::Call { func, args, .. } = &bb.terminator().kind {
                    let Some((f, _)) = func.constant().and_then(const_fn) else { continue };
                    let name = tcx.opt_item_name(f).map(|n| n.to_string()).unwrap_or_default();
                    if ["cmp", "partial_cmp", "total_cmp", "lt", "le", "gt", "ge"].contains(&name.as_str()) {
                        seen = true;
                        if args.iter().all(|a| a.node.place().is_some_and(|p| self.faithful(body, p.local, &mut HashMap::new(), 0))) {
                            return true;
                        }
                    } else if f.is_local() {
                        return true;
                    }
                }
            }
        }
        !seen
    }

    fn body_of(&self, l: LocalDefId) -> &'tcx Body<'tcx> {
        self.tcx.optimized_mir(l.to_def_id())
    }

    fn faithful(&self, body: &'tcx Body<'tcx>, x: Local, seen: &mut HashMap<Local, bool>, depth: usize) -> bool {
        if x.index() >= 1 && x.index() <= body.arg_count || depth > 4 {
            return true;
        }
        if let Some(v) = seen.get(&x) {
            return *v;
        }
        seen.insert(x, false);
        let tcx = self.tcx;
        let mut any = false;
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                let StatementKind::Assign(a) = &s.kind else { continue };
                let (pl, rv) = &**a;
                if pl.local != x {
                    continue;
                }
                let op = |o: &Operand<'tcx>, seen: &mut HashMap<Local, bool>| o.place().is_some_and(|p| self.faithful(body, p.local, seen, depth));
                any |= match rv {
                    Rvalue::Use(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Repeat(o, _) => op(o, seen),
                    Rvalue::Ref(_, _, p) | Rvalue::CopyForDeref(p) | Rvalue::RawPtr(_, p) => self.faithful(body, p.local, seen, depth),
                    Rvalue::Aggregate(_, os) => os.iter().any(|o| op(o, seen)),
                    Rvalue::BinaryOp(BinOp::Rem | BinOp::Div | BinOp::Shr | BinOp::BitAnd | BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge, _) => false,
                    Rvalue::BinaryOp(_, os) => op(&os.0, seen) || op(&os.1, seen),
                    Rvalue::Discriminant(_) => false,
                    _ => true,
                };
            }
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator().kind {
                if destination.local != x {
                    continue;
                }
                let from = args.iter().any(|a| a.node.place().is_some_and(|p| self.faithful(body, p.local, seen, depth)));
                any |= from
                    && match func.constant().and_then(const_fn) {
                        Some((f, _)) => match f.as_local() {
                            Some(l) if tcx.is_mir_available(f) => self.faithful(self.body_of(l), RETURN_PLACE, &mut HashMap::new(), depth + 1),
                            _ => !LOSSY.contains(&tcx.opt_item_name(f).map(|n| n.to_string()).unwrap_or_default().as_str()),
                        },
                        None => true,
                    };
            }
        }
        seen.insert(x, any);
        any
    }

    /// a loop over elements in hash order may only do things whose order does not matter
    fn loop_rule(&self, body: &'tcx Body<'tcx>, alias: &HashMap<Local, Local>, cyc: &BTreeSet<usize>, next: BasicBlock, iter: Local, st: &mut BTreeSet<Local>) -> Option<(Span, String)> {
        let tcx = self.tcx;
        let mut outside = HashSet::new();
        let mut inside = HashSet::new();
        for (b, bb) in body.basic_blocks.iter_enumerated() {
            let set = if cyc.contains(&b.index()) { &mut inside } else { &mut outside };
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    set.insert(x.0.local);
                }
            }
            if let TerminatorKind::Call { destination, .. } = &bb.terminator().kind {
                set.insert(destination.local);
            }
        }
        for i in 0..=body.arg_count {
            outside.insert(Local::from_usize(i));
        }
        let mut bad = None;
        let mut taint = vec![];
        for (b, bb) in body.basic_blocks.iter_enumerated() {
            if !cyc.contains(&b.index()) {
                continue;
            }
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    let (pl, rv) = &**x;
                    let r = self.root(alias, pl.local);
                    let far = outside.contains(&r) && (pl.is_indirect() || outside.contains(&pl.local));
                    let harmless = match rv {
                        Rvalue::BinaryOp(op, _) => matches!(
                            op,
                            BinOp::Add | BinOp::BitOr | BinOp::BitAnd | BinOp::BitXor | BinOp::Mul | BinOp::AddWithOverflow | BinOp::MulWithOverflow | BinOp::AddUnchecked
                        ),
                        Rvalue::Use(Operand::Constant(_), _) => true,
                        // the sum, moved out of the pair with its overflow flag
                        Rvalue::Use(o, _) => o.place().is_some_and(|p| body.local_decls[p.local].ty.is_adt() == false && matches!(body.local_decls[p.local].ty.kind(), TyKind::Tuple(l) if l.len() == 2 && l[1].is_bool())),
                        Rvalue::Ref(..) | Rvalue::CopyForDeref(_) => true,
                        _ => false,
                    };
                    if far && !harmless {
                        bad = Some((s.source_info.span, "a loop in hash order overwrites a value from outside of it".to_string()));
                    }
                }
            }
            if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator().kind {
                if b == next {
                    continue;
                }
                let (p, local) = match func.constant().and_then(const_fn) {
                    Some((d, _)) => (raw_path(tcx, d), d.is_local()),
                    None => (String::new(), true),
                };
                let name = p.rsplit("::").next().unwrap_or("");
                for a in args.iter() {
                    let t = a.node.ty(&body.local_decls, tcx);
                    let TyKind::Ref(_, x, m) = t.kind() else { continue };
                    if !m.is_mut() {
                        continue;
                    }
                    let Some(pl) = a.node.place() else { continue };
                    let r = self.root(alias, pl.local);
                    if r == iter || !outside.contains(&r) {
                        continue;
                    }
                    if (x.is_integral() || x.is_bool()) && p.starts_with("core::ops::") && ["add_assign", "bitor_assign", "bitand_assign", "bitxor_assign", "mul_assign"].contains(&name) {
                        continue;
                    }
                    if is_ordered_container(tcx, *x) || ["entry", "or_insert", "or_insert_with", "or_default", "get_mut"].contains(&name) {
                        continue;
                    }
                    if !local && ["push", "extend", "push_back", "insert", "push_str", "write_fmt", "write_str"].contains(&name) {
                        if r.index() >= 1 && r.index() <= body.arg_count {
                            bad = Some((bb.terminator().source_info.span, format!("a loop in hash order fills a collection of the caller with {name}")));
                        }
                        taint.push(r);
                        continue;
                    }
                    bad = Some((bb.terminator().source_info.span, format!("a loop in hash order changes something with {}", if p.is_empty() { "a function" } else { &p })));
                }
                if outside.contains(&destination.local) && !inside.contains(&destination.local) {
                    bad = Some((bb.terminator().source_info.span, "a loop in hash order overwrites a value from outside of it".to_string()));
                }
            }
            // leaving the loop early
            for s in bb.terminator().successors() {
                if body.basic_blocks[s].is_cleanup || cyc.contains(&s.index()) {
                    continue;
                }
                let exhausted = matches!(bb.terminator().kind, TerminatorKind::SwitchInt { .. }) && after_next(body, b, next);
                let dead = matches!(body.basic_blocks[s].terminator().kind, TerminatorKind::Unreachable);
                if !exhausted && !dead {
                    bad = Some((bb.terminator().source_info.span, "a loop in hash order is left early".to_string()));
                }
            }
        }
        st.extend(taint);
        bad
    }

    // ---------------------------------------------------------------- guards

    /// the conditions that hold on every way to a block
    fn always_guarded(&mut self, f: LocalDefId, target: BasicBlock, pred: &dyn Fn(&str, bool) -> bool) -> Result<bool, String> {
        self.on_paths(f, target, &|_, _, conds, _| conds.iter().any(|(c, v)| pred(c, *v)))
    }

    /// whether something holds at a block, on every way to it
    fn on_paths(
        &mut self,
        f: LocalDefId,
        target: BasicBlock,
        holds: &dyn Fn(&Self, &HashMap<Local, String>, &BTreeMap<String, bool>, u32) -> bool,
    ) -> Result<bool, String> {
        let body = self.tcx.optimized_mir(f.to_def_id());
        // blocks that can reach the target
        let preds = body.basic_blocks.predecessors();
        let mut can = HashSet::new();
        let mut todo = vec![target];
        while let Some(b) = todo.pop() {
            if can.insert(b) {
                todo.extend(preds[b].iter().copied());
            }
        }
        let mut steps = 0usize;
        let mut ok = true;
        let mut stack: Vec<(BasicBlock, HashMap<Local, String>, BTreeMap<String, bool>, BTreeSet<usize>, u32)> =
            vec![(START_BLOCK, HashMap::new(), BTreeMap::new(), BTreeSet::new(), 0)];
        while let Some((b, mut env, conds, mut seen, mut ver)) = stack.pop() {
            steps += 1;
            if steps > 200_000 {
                return Err("too many paths".into());
            }
            if b != target && !seen.insert(b.index()) {
                continue;
            }
            let bb = &body.basic_blocks[b];
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    let (pl, rv) = &**x;
                    if pl.projection.is_empty() {
                        let e = self.rv_expr(body, &env, rv, ver);
                        env.insert(pl.local, e);
                    } else {
                        ver += 1;
                    }
                }
            }
            if b == target {
                self.guard_paths += 1;
                if !holds(self, &env, &conds, ver) {
                    ok = false;
                }
                continue;
            }
            match &bb.terminator().kind {
                TerminatorKind::SwitchInt { discr, targets } => {
                    let e = self.op_expr(body, &env, discr, ver);
                    if let Ok(v) = e.parse::<u128>() {
                        let t = targets.target_for_value(v);
                        if can.contains(&t) {
                            stack.push((t, env, conds, seen, ver));
                        }
                        continue;
                    }
                    let mut vals = vec![];
                    for (v, t) in targets.iter() {
                        vals.push(v);
                        stack.push((t, env.clone(), with(&conds, &format!("{e}=={v}"), true), seen.clone(), ver));
                    }
                    let mut c = Some(conds.clone());
                    for v in &vals {
                        c = c.and_then(|c| with(&Some(c).unwrap(), &format!("{e}=={v}"), false).into());
                    }
                    stack.push((targets.otherwise(), env.clone(), c.unwrap(), seen.clone(), ver));
                    // drop what cannot be or does not lead anywhere
                    stack.retain(|(t, _, c, _, _)| can.contains(t) && !c.contains_key("!"));
                }
                TerminatorKind::Call { args, destination, target: Some(t), .. } => {
                    for a in args.iter() {
                        if let TyKind::Ref(_, _, m) = a.node.ty(&body.local_decls, self.tcx).kind() {
                            if m.is_mut() {
                                ver += 1;
                            }
                        }
                    }
                    if destination.projection.is_empty() {
                        let e = match self.bool_then(body, b) {
                            Some((recv, _)) => format!("then({})", self.op_expr(body, &env, recv, ver)),
                            None => format!("call@{}", b.index()),
                        };
                        env.insert(destination.local, e);
                    } else {
                        ver += 1;
                    }
                    if can.contains(t) {
                        stack.push((*t, env, conds, seen, ver));
                    }
                }
                t => {
                    for s in t.successors() {
                        if can.contains(&s) && !body.basic_blocks[s].is_cleanup {
                            stack.push((s, env.clone(), conds.clone(), seen.clone(), ver));
                        }
                    }
                }
            }
        }
        Ok(ok)
    }

    fn place_expr(&self, body: &'tcx Body<'tcx>, env: &HashMap<Local, String>, p: &Place<'tcx>, ver: u32) -> String {
        let mut s = match env.get(&p.local) {
            Some(e) => e.clone(),
            None => format!("_{}", p.local.index()),
        };
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s = format!("*{}", s.strip_prefix('&').map(|x| x.to_string()).unwrap_or(s.clone())).replacen("**", "*", 0),
                ProjectionElem::Field(i, _) if s.starts_with("tuple(") && s.ends_with(')') => {
                    s = top_args(&s).get(i.index()).map(|x| x.to_string()).unwrap_or_else(|| "?".into());
                }
                ProjectionElem::Field(i, _) => {
                    let owner = match cur.ty.kind() {
                        TyKind::Adt(a, _) => raw_path(self.tcx, a.did()),
                        _ => String::new(),
                    };
                    s = format!("{s}.[{owner}#{}]", i.index());
                }
                ProjectionElem::Downcast(_, v) => s = format!("{s}@{}", v.index()),
                _ => s = format!("{s}?"),
            }
            cur = cur.projection_ty(self.tcx, e);
        }
        if !p.projection.is_empty() && !s.ends_with(')') && s.parse::<u128>().is_err() {
            s = format!("{}~{ver}", unversioned(&s));
        }
        s
    }

    /// the block calls bool::then or bool::then_some: what is asked, and what is made of it
    fn bool_then<'b>(&self, body: &'b Body<'tcx>, b: BasicBlock) -> Option<(&'b Operand<'tcx>, &'b Operand<'tcx>)> {
        let TerminatorKind::Call { func, args, .. } = &body.basic_blocks[b].terminator().kind else { return None };
        let (d, _) = func.constant().and_then(const_fn)?;
        let p = raw_path(self.tcx, d);
        if p.starts_with("core::bool::") && (p.ends_with("::then") || p.ends_with("::then_some")) {
            return Some((&args[0].node, &args[1].node));
        }
        None
    }

    fn op_expr(&self, body: &'tcx Body<'tcx>, env: &HashMap<Local, String>, o: &Operand<'tcx>, ver: u32) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place_expr(body, env, p, ver),
            Operand::Constant(c) => match if c.const_.ty().is_bool() { c.const_.try_to_bool() } else { None } {
                Some(v) => format!("{}", v as u8),
                None => format!("{}", c.const_),
            },
            _ => "?".into(),
        }
    }

    fn rv_expr(&self, body: &'tcx Body<'tcx>, env: &HashMap<Local, String>, r: &Rvalue<'tcx>, ver: u32) -> String {
        match r {
            Rvalue::Use(o, _) => self.op_expr(body, env, o, ver),
            Rvalue::CopyForDeref(p) => self.place_expr(body, env, p, ver),
            Rvalue::Aggregate(k, ops) if matches!(**k, AggregateKind::Tuple) => {
                let v: Vec<String> = ops.iter().map(|o| self.op_expr(body, env, o, ver)).collect();
                format!("tuple({})", v.join(","))
            }
            Rvalue::Ref(_, _, p) => format!("&{}", self.place_expr(body, env, p, ver)),
            Rvalue::BinaryOp(op, b) => format!("{op:?}({},{})", self.op_expr(body, env, &b.0, ver), self.op_expr(body, env, &b.1, ver)),
            Rvalue::UnaryOp(op, o) => format!("{op:?}({})", self.op_expr(body, env, o, ver)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let n = match t.kind() {
                    TyKind::Adt(a, _) => raw_path(self.tcx, a.did()),
                    _ => String::new(),
                };
                format!("discr<{n}>({})", self.place_expr(body, env, p, ver))
            }
            _ => format!("?{:p}", r),
        }
    }

    /// bool fields that are true only because of the directive
    fn find_verbose(&mut self) {
        let tcx = self.tcx;
        let mut writes: HashMap<(DefId, usize), Vec<(LocalDefId, BasicBlock, Span, bool)>> = HashMap::new(); // true: may set
        for f in self.bodies.clone() {
            let body = tcx.optimized_mir(f.to_def_id());
            for (b, bb) in body.basic_blocks.iter_enumerated() {
                for s in &bb.statements {
                    let StatementKind::Assign(x) = &s.kind else { continue };
                    let (pl, rv) = &**x;
                    let is_false = |o: &Operand<'tcx>| o.constant().is_some_and(|c| c.const_.try_to_bool() == Some(false));
                    if let Some((base, ProjectionElem::Field(i, t))) = pl.as_ref().last_projection() {
                        if t.is_bool() {
                            if let TyKind::Adt(a, _) = base.ty(&body.local_decls, tcx).ty.kind() {
                                let set = !matches!(rv, Rvalue::Use(o, _) if is_false(o));
                                writes.entry((a.did(), i.index())).or_default().push((f, b, s.source_info.span, set));
                            }
                        }
                    }
                    if let Rvalue::Aggregate(k, ops) = rv {
                        if let AggregateKind::Adt(d, ..) = **k {
                            if d.is_local() && tcx.adt_def(d).is_struct() {
                                for (i, o) in ops.iter_enumerated() {
                                    if o.ty(&body.local_decls, tcx).is_bool() {
                                        writes.entry((d, i.index())).or_default().push((f, b, s.source_info.span, !is_false(o)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // the directive: an enum variant of this crate called Verbose
        let mut disc = HashSet::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(id) == DefKind::Enum {
                let a = tcx.adt_def(id.to_def_id());
                for (i, v) in a.variants().iter_enumerated() {
                    if v.name.as_str() == "Verbose" {
                        disc.insert(format!("discr<{}>(", raw_path(tcx, id.to_def_id())) + "|" + &format!("=={}", a.discriminant_for_variant(tcx, i).val));
                    }
                }
            }
        }
        for ((d, i), ws) in writes {
            let sets: Vec<_> = ws.iter().filter(|w| w.3).collect();
            if sets.is_empty() || !d.is_local() {
                continue;
            }
            let mut ok = true;
            for w in sets {
                let disc = disc.clone();
                let pred = move |c: &str, v: bool| {
                    v && disc.iter().any(|x| {
                        let (a, b) = x.split_once('|').unwrap();
                        c.starts_with(a) && c.ends_with(b)
                    })
                };
                match self.always_guarded(w.0, w.1, &pred) {
                    Ok(true) => (),
                    _ => ok = false,
                }
            }
            if ok {
                self.verbose.insert((d, i));
            }
        }
    }

    fn prints(&mut self) {
        let tcx = self.tcx;
        for f in self.bodies.clone() {
            let body = tcx.optimized_mir(f.to_def_id());
            for (b, bb) in body.basic_blocks.iter_enumerated() {
                let TerminatorKind::Call { func, .. } = &bb.terminator().kind else { continue };
                let Some((d, _)) = func.constant().and_then(const_fn) else { continue };
                let p = raw_path(tcx, d);
                if ["_print", "_eprint", "stdout", "stderr"].iter().any(|x| p.strip_prefix("std::io::stdio::") == Some(x)) {
                    self.prints += 1;
                    match self.verbose_at(f, b, None, 0) {
                        Ok(true) => (),
                        Ok(false) => self.find("print", f, bb.terminator().source_info.span, "prints without %verbose".into()),
                        Err(e) => self.find("print", f, bb.terminator().source_info.span, format!("prints, and it is not known when: {e}")),
                    }
                }
            }
        }
    }

    /// the flag of %verbose is set if the expression has this truth value; `atom`: other things known to imply that
    fn implies(&self, e: &str, truth: bool, atom: &dyn Fn(&str) -> bool) -> bool {
        let e = unversioned(e);
        if let Ok(v) = e.parse::<u128>() {
            return (v != 0) != truth; // never so
        }
        let e = e.trim_start_matches(['&', '*']);
        let Some((f, _)) = e.split_once('(').filter(|_| e.ends_with(')')) else {
            return truth && (self.verbose.iter().any(|(d, i)| e.ends_with(&format!(".[{}#{}]", raw_path(self.tcx, *d), i))) || atom(e));
        };
        let a = top_args(e);
        match (f, &a[..]) {
            ("Not", [x]) => self.implies(x, !truth, atom),
            ("BitAnd", [x, y]) if truth => self.implies(x, true, atom) || self.implies(y, true, atom),
            ("BitAnd", [x, y]) => self.implies(x, false, atom) && self.implies(y, false, atom),
            ("BitOr", [x, y]) if truth => self.implies(x, true, atom) && self.implies(y, true, atom),
            ("BitOr", [x, y]) => self.implies(x, false, atom) || self.implies(y, false, atom),
            ("Eq" | "Ne", [x, y]) => {
                let same = truth == (f == "Eq");
                match (x.parse::<u8>(), y.parse::<u8>()) {
                    (_, Ok(k)) if k < 2 => self.implies(x, (k == 1) == same, atom),
                    (Ok(k), _) if k < 2 => self.implies(y, (k == 1) == same, atom),
                    _ => false,
                }
            }
            ("discr<core::option::Option>", [x]) => match x.strip_prefix("then(").and_then(|x| x.strip_suffix(')')) {
                Some(x) => self.implies(x, truth, atom),
                None => false,
            },
            _ => false,
        }
    }

    fn cond_implies(&self, c: &str, v: bool, atom: &dyn Fn(&str) -> bool) -> bool {
        match c.rsplit_once("==") {
            Some((e, k)) if k == "0" || k == "1" => self.implies(e, (k != "0") == v, atom),
            _ => false,
        }
    }

    /// the block is reached, or the operand picked at it is true, only with %verbose
    fn verbose_at(&mut self, f: LocalDefId, b: BasicBlock, value: Option<&Operand<'tcx>>, depth: u32) -> Result<bool, String> {
        if depth > 6 {
            return Err("call chain too deep".into());
        }
        let body = self.tcx.optimized_mir(f.to_def_id());
        let test = |h: &mut Self, atom: &dyn Fn(&str) -> bool| {
            h.on_paths(f, b, &|h, env, conds, ver| {
                conds.iter().any(|(c, v)| h.cond_implies(c, *v, atom)) || value.is_some_and(|o| h.implies(&h.op_expr(body, env, o, ver), true, atom))
            })
        };
        if test(self, &|_| false)? {
            return Ok(true);
        }
        let cs = self.callers.get(&f.to_def_id()).cloned().unwrap_or_default();
        if cs.is_empty() {
            return Ok(false);
        }
        // all callers are guarded
        if value.is_none() {
            let mut all = true;
            for (g, b) in &cs {
                match b {
                    Some(b) if *g != f => all &= self.verbose_made(*g, *b, f, depth + 1)?,
                    Some(_) => (),
                    None => all = false,
                }
            }
            if all {
                return Ok(true);
            }
        }
        // or what they pass is
        let closure = self.tcx.is_closure_like(f.to_def_id());
        let mut params: Vec<(usize, String)> = vec![];
        if closure {
            let n = match body.local_decls[Local::from_usize(1)].ty.peel_refs().kind() {
                TyKind::Closure(_, a) => a.as_closure().upvar_tys().len(),
                _ => 0,
            };
            params.extend((0..n).map(|i| (i, format!("_1.[#{i}]"))));
        } else {
            params.extend(body.args_iter().filter(|a| body.local_decls[*a].ty.peel_refs().is_bool()).map(|a| (a.index() - 1, format!("_{}", a.index()))));
        }
        for (k, name) in params {
            if !test(self, &|e| e.replace(['*', '(', ')'], "") == name)? {
                continue;
            }
            let mut all = true;
            for (g, b) in &cs {
                let (Some(b), true) = (b, *g != f) else {
                    all = false;
                    break;
                };
                let other = self.tcx.optimized_mir(g.to_def_id());
                let arg = if closure {
                    other.basic_blocks[*b].statements.iter().find_map(|s| match &s.kind {
                        StatementKind::Assign(x) => match &x.1 {
                            Rvalue::Aggregate(a, ops) if matches!(**a, AggregateKind::Closure(d, _) if d == f.to_def_id()) => ops.iter().nth(k),
                            _ => None,
                        },
                        _ => None,
                    })
                } else {
                    match &other.basic_blocks[*b].terminator().kind {
                        TerminatorKind::Call { func, args, .. } if func.constant().and_then(const_fn).is_some_and(|x| x.0 == f.to_def_id()) => args.get(k).map(|a| &a.node),
                        _ => None,
                    }
                };
                match arg {
                    Some(_) => all &= self.verbose_at(*g, *b, arg, depth + 1)?,
                    None => all = false,
                }
            }
            if all {
                return Ok(true);
            }
        }
        Ok(false)
    }

    /// as verbose_at, for the block of g that names or makes f; a closure may be for bool::then only
    fn verbose_made(&mut self, g: LocalDefId, b: BasicBlock, f: LocalDefId, depth: u32) -> Result<bool, String> {
        if self.verbose_at(g, b, None, depth)? {
            return Ok(true);
        }
        let body = self.tcx.optimized_mir(g.to_def_id());
        for (c, _) in body.basic_blocks.iter_enumerated() {
            if let Some((recv, made)) = self.bool_then(body, c) {
                if matches!(made.ty(&body.local_decls, self.tcx).kind(), TyKind::Closure(d, _) | TyKind::FnDef(d, _) if *d == f.to_def_id()) {
                    return self.verbose_at(g, c, Some(recv), depth);
                }
            }
        }
        Ok(false)
    }
}

fn unversioned(e: &str) -> &str {
    match e.rsplit_once('~') {
        Some((x, n)) if n.parse::<u32>().is_ok() => x,
        _ => e,
    }
}

/// the arguments of an expression `f(a,b)`
fn top_args(e: &str) -> Vec<&str> {
    let (Some(i), true) = (e.find('('), e.ends_with(')')) else { return vec![] };
    let s = &e[i + 1..e.len() - 1];
    let (mut out, mut depth, mut from) = (vec![], 0i32, 0);
    for (k, c) in s.char_indices() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(&s[from..k]);
                from = k + 1;
            }
            _ => (),
        }
    }
    if !s.is_empty() {
        out.push(&s[from..]);
    }
    out
}

fn with(c: &BTreeMap<String, bool>, k: &str, v: bool) -> BTreeMap<String, bool> {
    let mut c = c.clone();
    // one value excludes the others
    if v {
        if let Some((e, _)) = k.rsplit_once("==") {
            let pre = format!("{e}==");
            if c.iter().any(|(x, y)| *y && x.starts_with(&pre) && x != k) {
                c.insert("!".into(), true);
            }
        }
    }
    match c.get(k) {
        Some(o) if *o != v => {
            c.insert("!".into(), true);
        }
        _ => {
            c.insert(k.to_string(), v);
        }
    }
    c
}

fn dty_is_option<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    matches!(t.kind(), TyKind::Adt(a, _) if raw_path(tcx, a.did()) == "core::option::Option")
}

/// the switch follows the call of `next` without anything else in between
fn after_next(body: &Body<'_>, b: BasicBlock, next: BasicBlock) -> bool {
    let mut x = next;
    for _ in 0..4 {
        let s: Vec<_> = body.basic_blocks[x].terminator().successors().filter(|s| !body.basic_blocks[*s].is_cleanup).collect();
        if s.len() != 1 {
            return false;
        }
        x = s[0];
        if x == b {
            return true;
        }
    }
    false
}

/// for every block the cycle it is in
fn sccs(body: &Body<'_>) -> Vec<Option<BTreeSet<usize>>> {
    let n = body.basic_blocks.len();
    let mut reach: Vec<BTreeSet<usize>> = vec![];
    for (_, _) in body.basic_blocks.iter_enumerated() {
        reach.push(BTreeSet::new());
    }
    for b in 0..n {
        let mut todo: Vec<usize> = body.basic_blocks[BasicBlock::from_usize(b)].terminator().successors().map(|s| s.index()).collect();
        while let Some(x) = todo.pop() {
            if body.basic_blocks[BasicBlock::from_usize(x)].is_cleanup {
                continue;
            }
            if reach[b].insert(x) {
                todo.extend(body.basic_blocks[BasicBlock::from_usize(x)].terminator().successors().map(|s| s.index()));
            }
        }
    }
    (0..n)
        .map(|b| {
            if !reach[b].contains(&b) {
                return None;
            }
            Some((0..n).filter(|x| reach[b].contains(x) && reach[*x].contains(&b)).collect())
        })
        .collect()
}

trait TraitLike {
    fn is_trait_like(self, d: DefId) -> bool;
}
impl<'tcx> TraitLike for TyCtxt<'tcx> {
    fn is_trait_like(self, d: DefId) -> bool {
        self.trait_of_assoc(d).is_some()
    }
}

pub fn run(tcx: TyCtxt<'_>, out: &str) {
    let mut h = Hermetic {
        tcx,
        out: vec![],
        functions: 0,
        names: 0,
        unordered_sources: 0,
        unordered_sorted: 0,
        prints: 0,
        statics: 0,
        guard_paths: 0,
        callers: HashMap::new(),
        verbose: HashSet::new(),
        bodies: vec![],
    };
    let mut keys: Vec<LocalDefId> = tcx
        .mir_keys(())
        .iter()
        .copied()
        .filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure))
        .collect();
    keys.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
    h.bodies = keys.clone();
    for f in keys {
        h.functions += 1;
        let body = tcx.optimized_mir(f.to_def_id());
        let mut m = Mentions { h: &mut h, f, body };
        m.visit_body(body);
        h.order(f, body);
    }
    h.statics();
    h.find_verbose();
    h.prints();
    let envs: Vec<String> = tcx.sess.env_depinfo.borrow().iter().map(|(k, _)| q(k.as_str())).collect();
    let f = h
        .out
        .iter()
        .map(|f| format!("{{\"rule\":{},\"function\":{},\"line\":{},\"message\":{}}}", q(f.rule), q(&f.func), q(&f.line), q(&f.msg)))
        .collect::<Vec<_>>()
        .join(",\n");
    let v: Vec<String> = h.verbose.iter().map(|(d, i)| q(&format!("{}#{}", tcx.def_path_str(*d), i))).collect();
    std::fs::write(
        out,
        format!(
            "{{\"functions\":{},\"names\":{},\"unordered_sources\":{},\"unordered_sorted\":{},\"prints\":{},\"statics\":{},\"guard_paths\":{},\"verbose\":[{}],\"env\":[{}],\"findings\":[{}]}}\n",
            h.functions,
            h.names,
            h.unordered_sources,
            h.unordered_sorted,
            h.prints,
            h.statics,
            h.guard_paths,
            v.join(","),
            envs.join(","),
            f
        ),
    )
    .unwrap();
}
