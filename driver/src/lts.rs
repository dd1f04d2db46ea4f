//! Fixpoint exploration: from the public entry points of a generated parser to a finite transition system.

use crate::interp::*;
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::rc::Rc;

const BOTTOM: u32 = u32::MAX;

struct Op {
    name: String,
    did: Option<DefId>,
}

enum Work<'tcx> {
    Cont(Kept<'tcx>),
    Mat(Kept<'tcx>, u32, u32),
    Variant(Kept<'tcx>, u32, Ty<'tcx>, u32),
    Target(Kept<'tcx>, u32, String),
    Op(Kept<'tcx>, usize),
}

/// A state that waits: the generated functions have thousands of locals, most of them unused or equal to those of
/// the other states, so they are kept in chunks that are shared.
struct Packed<'tcx> {
    st: St<'tcx>,
    locals: Vec<(usize, Vec<Chunk<'tcx>>)>,
}
type Kept<'tcx> = Rc<Packed<'tcx>>;
type Chunk<'tcx> = Option<Rc<[V<'tcx>]>>;
const CHUNK: usize = 64;

fn unpack<'tcx>(p: &Packed<'tcx>) -> St<'tcx> {
    let mut st = p.st.clone();
    for (f, (n, chunks)) in st.frames.iter_mut().zip(&p.locals) {
        f.locals = vec![V::Uninit; *n];
        for (i, c) in chunks.iter().enumerate() {
            if let Some(c) = c {
                f.locals[i * CHUNK..i * CHUNK + c.len()].clone_from_slice(c);
            }
        }
    }
    st
}

pub struct Explorer<'tcx> {
    tcx: TyCtxt<'tcx>,
    it: Interp<'tcx>,
    map: HashMap<(u64, u64), u32>,
    n_nodes: u32,
    work: VecDeque<(u32, u32, Work<'tcx>)>, // (node, nsyms, work)
    classes: HashMap<V<'tcx>, u32>,
    class_vals: Vec<V<'tcx>>,
    preds: Vec<Vec<u32>>,
    pred_set: HashSet<(u32, u32)>,
    links: Vec<Vec<u32>>,
    chunks: HashSet<Rc<[V<'tcx>]>>,
    waiters: Vec<Vec<(u32, u32, u32, Kept<'tcx>)>>,
    out: std::io::BufWriter<std::fs::File>,
    ops: Vec<Op>,
    exact: bool,
    pub edges: u64,
    pub limit: u32,
    // tokens to feed, if not all
    only: Option<(DefId, std::collections::HashSet<String>)>,
}

fn h2<T: Hash>(x: &T) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    x.hash(&mut a);
    let mut b = DefaultHasher::new();
    0x9e3779b97f4a7c15u64.hash(&mut b);
    x.hash(&mut b);
    (a.finish(), b.finish())
}

impl<'tcx> Explorer<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, path: &std::path::Path, exact: bool) -> Self {
        Explorer {
            tcx,
            it: Interp::new(tcx),
            map: HashMap::new(),
            n_nodes: 0,
            work: VecDeque::new(),
            classes: HashMap::new(),
            class_vals: vec![],
            preds: vec![],
            pred_set: HashSet::new(),
            links: vec![],
            chunks: HashSet::new(),
            waiters: vec![],
            out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            ops: vec![],
            exact,
            edges: 0,
            limit: 4_000_000,
            only: None,
        }
    }

    fn canon(&mut self, st: &mut St<'tcx>) -> Vec<u32> {
        // stack base normalisation: bottom known entry gets absolute index 0
        let bases: Vec<(i64, usize)> = st.stacks.iter().map(|s| (s.base, s.known.len())).collect();
        // heap reachability
        let nh = st.heap.len();
        let mut order: Vec<u32> = vec![];
        let mut newid: HashMap<u32, u32> = HashMap::new();
        if nh > 0 {
            order.push(0);
            newid.insert(0, 0);
        }
        fn scan<'tcx>(v: &V<'tcx>, order: &mut Vec<u32>, newid: &mut HashMap<u32, u32>) {
            match v {
                V::Agg(_, f) => {
                    for x in f.iter() {
                        scan(x, order, newid)
                    }
                }
                V::Ptr(p) => {
                    if let A::Heap(h) = p.a {
                        if !newid.contains_key(&h) {
                            newid.insert(h, order.len() as u32);
                            order.push(h);
                        }
                    }
                }
                _ => {}
            }
        }
        for f in &st.frames {
            for l in &f.locals {
                scan(l, &mut order, &mut newid)
            }
            if let Some(d) = &f.dest {
                if let A::Heap(h) = d.a {
                    if !newid.contains_key(&h) {
                        newid.insert(h, order.len() as u32);
                        order.push(h);
                    }
                }
            }
        }
        for s in &st.stacks {
            for l in &s.known {
                scan(l, &mut order, &mut newid)
            }
        }
        let mut i = 0;
        while i < order.len() {
            let v = st.heap[order[i] as usize].clone();
            scan(&v, &mut order, &mut newid);
            i += 1;
        }
        let nheap: Vec<V<'tcx>> = order.iter().map(|h| st.heap[*h as usize].clone()).collect();
        st.heap = nheap;
        // rename
        struct Ren {
            map: HashMap<u32, u32>,
            old: Vec<u32>,
        }
        fn fixptr(p: &Ptr, bases: &[(i64, usize)], newid: &HashMap<u32, u32>) -> Option<Ptr> {
            let mut q = p.clone();
            match p.a {
                A::Heap(h) => q.a = A::Heap(newid[&h]),
                A::Stack(k) => {
                    if let Some(P::I(i)) = q.path.first_mut() {
                        let j = *i - bases[k as usize].0;
                        if j < 0 || j as usize >= bases[k as usize].1 {
                            return None;
                        }
                        *i = j;
                    }
                }
                _ => {}
            }
            Some(q)
        }
        fn go<'tcx>(v: &mut V<'tcx>, r: &mut Ren, bases: &[(i64, usize)], newid: &HashMap<u32, u32>, depth: u32) {
            match v {
                V::Sym(s, _) => {
                    let n = r.old.len() as u32;
                    let old = *s;
                    let id = *r.map.entry(old).or_insert_with(|| n);
                    if id == n && r.old.len() as u32 == n {
                        r.old.push(old);
                    }
                    *s = id;
                }
                V::Agg(_, f) => {
                    if f.iter().any(needs) {
                        for x in Rc::make_mut(f).iter_mut() {
                            go(x, r, bases, newid, depth + 1)
                        }
                    }
                }
                V::Ptr(p) => {
                    if matches!(p.a, A::Heap(_) | A::Stack(_)) {
                        match fixptr(p, bases, newid) {
                            Some(q) => *p = Rc::new(q),
                            None => *v = V::Uninit,
                        }
                    }
                }
                _ => {}
            }
        }
        fn needs<'tcx>(v: &V<'tcx>) -> bool {
            match v {
                V::Sym(..) => true,
                V::Ptr(p) => matches!(p.a, A::Heap(_) | A::Stack(_)),
                V::Agg(_, f) => f.iter().any(needs),
                _ => false,
            }
        }
        let mut r = Ren { map: HashMap::new(), old: vec![] };
        for f in &mut st.frames {
            for l in &mut f.locals {
                go(l, &mut r, &bases, &newid, 0)
            }
            if let Some(d) = &f.dest {
                if matches!(d.a, A::Heap(_) | A::Stack(_)) {
                    if let Some(q) = fixptr(d, &bases, &newid) {
                        f.dest = Some(Rc::new(q));
                    }
                }
            }
        }
        for l in &mut st.heap {
            go(l, &mut r, &bases, &newid, 0)
        }
        for s in &mut st.stacks {
            for l in &mut s.known {
                go(l, &mut r, &bases, &newid, 0)
            }
            s.base = 0;
        }
        r.old
    }

    fn class_of(&mut self, v: &V<'tcx>) -> u32 {
        fn go<'tcx>(v: &mut V<'tcx>, n: &mut u32) {
            match v {
                V::Sym(s, _) => {
                    *s = *n;
                    *n += 1;
                }
                V::Agg(_, f) => {
                    for x in Rc::make_mut(f).iter_mut() {
                        go(x, n)
                    }
                }
                _ => {}
            }
        }
        let mut w = v.clone();
        let mut n = 0;
        go(&mut w, &mut n);
        if let Some(c) = self.classes.get(&w) {
            return *c;
        }
        let c = self.class_vals.len() as u32;
        self.classes.insert(w.clone(), c);
        self.class_vals.push(w);
        self.preds.push(vec![]);
        self.links.push(vec![]);
        self.waiters.push(vec![]);
        c
    }

    fn add_pred(&mut self, c: u32, p: u32) {
        if !self.pred_set.insert((c, p)) {
            return;
        }
        self.preds[c as usize].push(p);
        let ws: Vec<(u32, u32, u32, Kept<'tcx>)> = self.waiters[c as usize].clone();
        for (node, ns, k, st) in ws {
            self.work.push_back((node, ns, Work::Mat(st, k, p)));
        }
        for l in self.links[c as usize].clone() {
            self.add_pred(l, p);
        }
    }
    fn add_link(&mut self, from: u32, to: u32) {
        // preds(to) includes preds(from)
        if from == to || self.links[from as usize].contains(&to) {
            return;
        }
        self.links[from as usize].push(to);
        for p in self.preds[from as usize].clone() {
            self.add_pred(to, p);
        }
    }

    fn pack(&mut self, mut st: St<'tcx>) -> Kept<'tcx> {
        let mut locals = vec![];
        for f in st.frames.iter_mut() {
            let l = std::mem::take(&mut f.locals);
            let cs = l
                .chunks(CHUNK)
                .map(|c| {
                    if c.iter().all(|v| matches!(v, V::Uninit)) {
                        return None;
                    }
                    if let Some(r) = self.chunks.get(c) {
                        return Some(r.clone());
                    }
                    let r: Rc<[V<'tcx>]> = c.into();
                    self.chunks.insert(r.clone());
                    Some(r)
                })
                .collect();
            locals.push((l.len(), cs));
        }
        Rc::new(Packed { st, locals })
    }

    fn abstract_stacks(&mut self, st: &mut St<'tcx>) -> Vec<(u32, u32)> {
        let mut tops = vec![];
        if self.exact {
            return tops;
        }
        for k in 0..st.stacks.len() {
            if st.stacks[k].known.is_empty() {
                continue;
            }
            loop {
                let e = st.stacks[k].known[0].clone();
                let c = self.class_of(&e);
                match st.stacks[k].below {
                    Below::Bottom => self.add_pred(c, BOTTOM),
                    Below::PredOf(x) => self.add_link(x, c),
                }
                st.stacks[k].below = Below::PredOf(c);
                if st.stacks[k].known.len() == 1 {
                    tops.push((k as u32, c));
                    break;
                }
                let c2 = {
                    let e2 = st.stacks[k].known[1].clone();
                    self.class_of(&e2)
                };
                self.add_pred(c2, c);
                st.stacks[k].known.remove(0);
                st.stacks[k].base += 1;
                st.stacks[k].below = Below::PredOf(c2);
            }
        }
        tops
    }

    fn node(&mut self, kind: u8, st: &St<'tcx>, extra: u64) -> (u32, bool) {
        let h = h2(&(kind, extra, st));
        if let Some(n) = self.map.get(&h) {
            return (*n, false);
        }
        let n = self.n_nodes;
        self.n_nodes += 1;
        self.map.insert(h, n);
        (n, true)
    }
    fn leaf(&mut self, kind: char, msg: &str) -> u32 {
        let h = h2(&(kind, msg));
        if let Some(n) = self.map.get(&h) {
            return *n;
        }
        let n = self.n_nodes;
        self.n_nodes += 1;
        self.map.insert(h, n);
        writeln!(self.out, "[\"N\",{n},\"{kind}\",{}]", js(msg)).unwrap();
        n
    }
    fn edge(&mut self, from: u32, to: u32, ren: &[u32]) {
        self.edges += 1;
        let evs = std::mem::take(&mut self.it.events);
        write!(self.out, "[\"E\",{from},{to},[").unwrap();
        self.out.write_all(evs.join(",").as_bytes()).unwrap();
        write!(self.out, "],[").unwrap();
        for (i, r) in ren.iter().enumerate() {
            if i > 0 {
                write!(self.out, ",").unwrap();
            }
            write!(self.out, "{r}").unwrap();
        }
        writeln!(self.out, "],{}]", self.it.steps).unwrap();
    }

    fn settle(&mut self, from: u32, mut st: St<'tcx>) {
        let cut = self.it.run(&mut st);
        self.cut(from, st, cut)
    }

    fn cut(&mut self, from: u32, mut st: St<'tcx>, cut: Cut<'tcx>) {
        match cut {
            Cut::Sync => {
                let tops = self.abstract_stacks(&mut st);
                let ren = self.canon(&mut st);
                let (n, new) = self.node(b'S', &st, 0);
                if new {
                    writeln!(self.out, "[\"N\",{n},\"S\",{}]", tops.first().map(|t| t.1 as i64).unwrap_or(-1)).unwrap();
                    let st = self.pack(st);
                    self.work.push_back((n, ren.len() as u32, Work::Cont(st)));
                }
                self.edge(from, n, &ren);
            }
            Cut::Mat(k) => {
                let ren = self.canon(&mut st);
                let c = match st.stacks[k as usize].below {
                    Below::PredOf(c) => c,
                    Below::Bottom => unreachable!(),
                };
                let (n, new) = self.node(b'M', &st, k as u64);
                if new {
                    writeln!(self.out, "[\"N\",{n},\"M\",{c}]").unwrap();
                    let st = self.pack(st);
                    for p in self.preds[c as usize].clone() {
                        self.work.push_back((n, ren.len() as u32, Work::Mat(st.clone(), k, p)));
                    }
                    self.waiters[c as usize].push((n, ren.len() as u32, k, st));
                }
                self.edge(from, n, &ren);
            }
            Cut::Fork(s, t) => {
                let ren = self.canon(&mut st);
                let s2 = match ren.iter().position(|x| *x == s) {
                    Some(i) => i as u32,
                    None => {
                        let l = self.leaf('U', "fork on dead symbol");
                        self.edge(from, l, &[]);
                        return;
                    }
                };
                let (n, new) = self.node(b'F', &st, s2 as u64);
                if new {
                    writeln!(self.out, "[\"N\",{n},\"F\",{s2}]").unwrap();
                    let st = self.pack(st);
                    let nv = match t.kind() {
                        TyKind::Adt(ad, _) => ad.variants().len(),
                        _ => 0,
                    };
                    for v in 0..nv {
                        if let (Some((d, o)), TyKind::Adt(ad, _)) = (&self.only, t.kind()) {
                            if ad.did() == *d && !o.contains(ad.variant(VariantIdx::from_usize(v)).name.as_str()) {
                                continue;
                            }
                        }
                        // uninhabited variants cannot occur
                        if let Some(fs) = self.it.fields_of(t, v as u32) {
                            if fs.iter().any(|f| f.is_never()) {
                                continue;
                            }
                        }
                        self.work.push_back((n, ren.len() as u32, Work::Variant(st.clone(), s2, t, v as u32)));
                    }
                }
                self.edge(from, n, &ren);
            }
            Cut::Any(ts) => {
                let ren = self.canon(&mut st);
                let (n, new) = self.node(b'A', &st, 0);
                if new {
                    writeln!(self.out, "[\"N\",{n},\"A\",0]").unwrap();
                    let st = self.pack(st);
                    for (l, t) in ts {
                        self.work.push_back((n, ren.len() as u32, Work::Target(st.clone(), t, l)));
                    }
                }
                self.edge(from, n, &ren);
            }
            Cut::Return(v) => {
                let rt = st.root_ret.take().unwrap_or(self.tcx.types.unit);
                let sh = self.it.shape(&st, &v, rt, 0);
                self.it.events.push(format!("[\"ret\",{sh}]"));
                // a config: the parser lives in heap[0] (or is gone)
                let _ = self.abstract_stacks(&mut st);
                let ren = self.canon(&mut st);
                let alive = !matches!(st.heap.first(), None | Some(V::Uninit));
                if !alive {
                    let l = self.leaf('X', "consumed");
                    self.edge(from, l, &ren);
                    return;
                }
                let (n, new) = self.node(b'C', &st, 0);
                if new {
                    writeln!(self.out, "[\"N\",{n},\"C\",0]").unwrap();
                    let st = self.pack(st);
                    for i in 0..self.ops.len() {
                        self.work.push_back((n, ren.len() as u32, Work::Op(st.clone(), i)));
                    }
                }
                self.edge(from, n, &ren);
            }
            Cut::Panic(m) => {
                let l = self.leaf('P', &m);
                self.edge(from, l, &[]);
            }
            Cut::Diverge(m) => {
                let l = self.leaf('D', &m);
                self.edge(from, l, &[]);
            }
            Cut::Unsupported(m) => {
                let l = self.leaf('U', &m);
                self.edge(from, l, &[]);
            }
        }
    }


    fn args_for(&self, did: DefId) -> ty::GenericArgsRef<'tcx> {
        let tcx = self.tcx;
        ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => panic!("generic parser in an interpreted witness"),
        })
    }

    fn start_op(&mut self, from: u32, mut st: St<'tcx>, did: DefId, label: &str, self_ty: Ty<'tcx>) {
        let tcx = self.tcx;
        let args = self.args_for(did);
        let inst = Instance::expect_resolve(tcx, self.it.env, did, args, rustc_span::DUMMY_SP);
        let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let sig = tcx.normalize_erasing_regions(self.it.env, ty::Unnormalized::new_wip(sig));
        let mut vals = vec![];
        let has_self = tcx.associated_item(did).is_method();
        for (i, t) in sig.inputs().iter().enumerate() {
            if i == 0 && has_self {
                match t.kind() {
                    TyKind::Ref(..) => vals.push(V::Ptr(Rc::new(Ptr { a: A::Heap(0), path: vec![], meta: None }))),
                    _ => vals.push(std::mem::replace(&mut st.heap[0], V::Uninit)),
                }
            } else if let TyKind::Tuple(l) = t.kind() {
                if l.is_empty() {
                    vals.push(agg(0, vec![]));
                } else {
                    vals.push(self.it.fresh(*t));
                }
            } else {
                vals.push(self.it.fresh(*t));
            }
        }
        let mut ev = format!("[\"call\",{},[", js(label));
        for (i, (v, t)) in vals.iter().zip(sig.inputs().iter()).enumerate() {
            if i > 0 {
                ev.push(',');
            }
            if i == 0 && has_self && *t != self_ty {
                ev.push_str("\"self\"");
            } else if i == 0 && has_self {
                ev.push_str("\"self\"");
            } else {
                ev.push_str(&self.it.shape(&st, v, *t, 0));
            }
        }
        ev.push_str("]]");
        self.it.events.push(ev);
        st.root_ret = Some(sig.output());
        match self.it.push_frame(&mut st, inst, vals, false, None, None) {
            Ok(()) => self.settle(from, st),
            Err(c) => self.cut(from, st, c),
        }
    }

    fn drain(&mut self, parser_ty: Ty<'tcx>) {
        while let Some((node, ns, w)) = self.work.pop_front() {
            if self.n_nodes > self.limit {
                let l = self.leaf('U', "node limit");
                self.edge(node, l, &[]);
                return;
            }
            self.it.next_sym = ns;
            self.it.events.clear();
            match w {
                Work::Cont(st) => self.settle(node, unpack(&st)),
                Work::Mat(st, k, p) => {
                    let mut st = unpack(&st);
                    let s = k as usize;
                    if p == BOTTOM {
                        st.stacks[s].below = Below::Bottom;
                        self.it.events.push("[\"bottom\"]".into());
                    } else {
                        let v = self.class_vals[p as usize].clone();
                        let v = self.freshen(&v);
                        let sh = self.it.shape(&st, &v, st.stacks[s].elem, 0);
                        self.it.events.push(format!("[\"mat\",{p},{sh}]"));
                        st.stacks[s].known.insert(0, v);
                        st.stacks[s].base -= 1;
                        st.stacks[s].below = Below::PredOf(p);
                    }
                    self.settle(node, st)
                }
                Work::Variant(st, s, t, v) => {
                    let mut st = unpack(&st);
                    let val = self.it.variant_value(t, v);
                    let name = match t.kind() {
                        TyKind::Adt(ad, _) => ad.variant(VariantIdx::from_u32(v)).name.to_string(),
                        _ => String::new(),
                    };
                    let sh = self.it.shape_novisit(&val, t);
                    self.it.events.push(format!("[\"fork\",{s},{},{sh}]", js(&name)));
                    Interp::subst(&mut st, s, &val);
                    self.settle(node, st)
                }
                Work::Target(st, t, l) => {
                    let mut st = unpack(&st);
                    self.it.events.push(format!("[\"any\",{}]", js(&l)));
                    let f = st.frames.last_mut().unwrap();
                    f.bb = t;
                    f.si = 0;
                    self.settle(node, st)
                }
                Work::Op(st, i) => match (self.ops[i].did, unpack(&st)) {
                    (Some(d), st) => {
                        let n = self.ops[i].name.clone();
                        self.start_op(node, st, d, &n, parser_ty)
                    }
                    (None, mut st) => {
                        // dropping the parser
                        self.it.events.push("[\"call\",\"(drop)\",[\"self\"]]".into());
                        let v = std::mem::replace(&mut st.heap[0], V::Uninit);
                        let mut o = vec![];
                        self.it.drop_value(&mut st, &v, &mut o);
                        self.it.events.push(format!("[\"drop\",[{}]]", o.join(",")));
                        let l = self.leaf('X', "consumed");
                        self.edge(node, l, &[]);
                    }
                },
            }
        }
    }

    fn freshen(&mut self, v: &V<'tcx>) -> V<'tcx> {
        match v {
            V::Sym(_, t) => {
                let s = V::Sym(self.it.next_sym, *t);
                self.it.next_sym += 1;
                s
            }
            V::Agg(i, f) => agg(*i, f.iter().map(|x| self.freshen(x)).collect()),
            x => x.clone(),
        }
    }

    pub fn explore_parser(&mut self, parser: DefId, token: Option<DefId>, full: bool) -> Result<(), String> {
        let tcx = self.tcx;
        let methods = inherent_methods(tcx, parser);
        let pty = tcx.type_of(parser).instantiate(tcx, self.args_for(parser)).skip_norm_wip();
        let mut new = None;
        let mut list = vec![];
        for m in &methods {
            let name = tcx.item_name(*m).to_string();
            if !tcx.visibility(*m).is_public() {
                continue;
            }
            list.push(name.clone());
            if name == "new" {
                new = Some(*m);
            } else if full || name == "parse" || name == "end_of_input" {
                self.ops.push(Op { name, did: Some(*m) });
            }
        }
        if full {
            self.ops.push(Op { name: "(drop)".into(), did: None });
        }
        list.sort();
        writeln!(
            self.out,
            "[\"H\",\"methods\",[{}]]",
            list.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        let new = match new {
            Some(n) => n,
            None => return Err("no public function new".into()),
        };
        if let Some(t) = token {
            let ad = tcx.adt_def(t);
            let tt = tcx.type_of(t).instantiate(tcx, self.args_for(t)).skip_norm_wip();
            let mut o = vec![];
            for (i, v) in ad.variants().iter_enumerated() {
                let fs = self.it.fields_of(tt, i.as_u32()).unwrap_or_default();
                o.push(format!(
                    "[{},[{}]]",
                    js(v.name.as_str()),
                    fs.iter().map(|f| js(&format!("{f}"))).collect::<Vec<_>>().join(",")
                ));
            }
            writeln!(self.out, "[\"H\",\"token\",[{}]]", o.join(",")).unwrap();
        }
        // node 0: before construction
        let n0 = self.leaf('0', "start");
        self.it.next_sym = 0;
        self.it.events.clear();
        let st = St { frames: vec![], heap: vec![], stacks: vec![], root_ret: None };
        self.start_new(n0, st, new);
        self.drain(pty);
        Ok(())
    }

    fn start_new(&mut self, n0: u32, mut st: St<'tcx>, did: DefId) {
        // run `new` and put the parser it returns into heap[0]
        let tcx = self.tcx;
        let args = self.args_for(did);
        let inst = Instance::expect_resolve(tcx, self.it.env, did, args, rustc_span::DUMMY_SP);
        let sig = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let sig = tcx.normalize_erasing_regions(self.it.env, ty::Unnormalized::new_wip(sig));
        let mut vals = vec![];
        let mut ev = String::from("[\"call\",\"new\",[");
        for (i, t) in sig.inputs().iter().enumerate() {
            let v = self.it.fresh(*t);
            if i > 0 {
                ev.push(',');
            }
            ev.push_str(&self.it.shape(&st, &v, *t, 0));
            vals.push(v);
        }
        ev.push_str("]]");
        self.it.events.push(ev);
        self.it.sync_on_push = false;
        let cut = match self.it.push_frame(&mut st, inst, vals, false, None, None) {
            Ok(()) => self.it.run(&mut st),
            Err(c) => c,
        };
        self.it.sync_on_push = true;
        match cut {
            Cut::Return(v) => {
                st.heap.insert(0, v);
                self.it.events.push("[\"ret\",\"self\"]".into());
                let _ = self.abstract_stacks(&mut st);
                let ren = self.canon(&mut st);
                let (n, _) = self.node(b'C', &st, 0);
                writeln!(self.out, "[\"N\",{n},\"C\",0]").unwrap();
                let st = self.pack(st);
                for i in 0..self.ops.len() {
                    self.work.push_back((n, ren.len() as u32, Work::Op(st.clone(), i)));
                }
                self.edge(n0, n, &ren);
            }
            c => self.cut(n0, st, c),
        }
    }

    /// explore the methods of a type on an opaque value (token accessors)
    pub fn explore_methods(&mut self, adt: DefId) {
        let tcx = self.tcx;
        let ty = tcx.type_of(adt).instantiate(tcx, self.args_for(adt)).skip_norm_wip();
        let mut list: Vec<DefId> =
            inherent_methods(tcx, adt).into_iter().filter(|m| tcx.visibility(*m).is_public()).collect();
        list.sort_by_key(|m| tcx.item_name(*m).to_string());
        writeln!(
            self.out,
            "[\"H\",\"token_methods\",[{}]]",
            list.iter().map(|s| js(tcx.item_name(*s).as_str())).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        for m in list {
            let n = self.leaf('T', tcx.item_name(m).as_str());
            self.it.next_sym = 0;
            self.it.events.clear();
            let mut st = St { frames: vec![], heap: vec![], stacks: vec![], root_ret: None };
            let v = self.it.fresh(ty);
            st.heap.push(v);
            let nm = tcx.item_name(m).to_string();
            let saved = std::mem::take(&mut self.ops);
            self.start_op(n, st, m, &format!("Token::{nm}"), ty);
            self.drain(ty);
            self.ops = saved;
        }
    }

    pub fn finish(&mut self) {
        for (i, v) in self.class_vals.clone().iter().enumerate() {
            let mut p = self.preds[i].iter().map(|x| if *x == BOTTOM { -1 } else { *x as i64 }).collect::<Vec<_>>();
            p.sort();
            let _ = v;
            writeln!(
                self.out,
                "[\"K\",{i},[{}]]",
                p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            )
            .unwrap();
        }
        let fns: Vec<String> = self.it.fns_seen.iter().map(|s| js(s)).collect();
        writeln!(self.out, "[\"H\",\"fns\",[{}]]", fns.join(",")).unwrap();
        writeln!(
            self.out,
            "[\"H\",\"stats\",{{\"nodes\":{},\"edges\":{},\"classes\":{},\"steps\":{}}}]",
            self.n_nodes,
            self.edges,
            self.class_vals.len(),
            self.it.total_steps
        )
        .unwrap();
        self.out.flush().unwrap();
    }
}

pub fn inherent_methods(tcx: TyCtxt<'_>, adt: DefId) -> Vec<DefId> {
    let mut v = vec![];
    for imp in tcx.inherent_impls(adt) {
        for it in tcx.associated_items(*imp).in_definition_order() {
            if tcx.def_kind(it.def_id) == DefKind::AssocFn {
                v.push(it.def_id);
            }
        }
    }
    v
}

pub fn run(tcx: TyCtxt<'_>, outdir: &str) {
    use rustc_hir::ItemKind;
    // top level modules named w_* / wb_* / wx_*, each with one module holding a struct Parser
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut mods: Vec<(String, DefId, Option<DefId>, DefId)> = vec![]; // witness, parser adt, token adt, module
    for id in tcx.hir_free_items() {
        let it = tcx.hir_item(id);
        let did = it.owner_id.to_def_id();
        if !matches!(it.kind, ItemKind::Mod(..)) {
            continue;
        }
        let path = tcx.def_path_str(did);
        let seg: Vec<&str> = path.split("::").collect();
        if seg.len() != 2 {
            continue;
        }
        let w = seg[0];
        if !(w.starts_with("w_") || w.starts_with("wb_") || w.starts_with("wx_")) {
            continue;
        }
        let (mut parser, mut token) = (None, None);
        for c in tcx.module_children_local(did.expect_local()).iter() {
            if let rustc_hir::def::Res::Def(k, d) = c.res {
                match (k, c.ident.name.as_str()) {
                    (DefKind::Struct, "Parser") => parser = Some(d),
                    (DefKind::Enum, "Token") => token = Some(d),
                    _ => (),
                }
            }
        }
        if let Some(p) = parser {
            mods.push((w.to_string(), p, token, did));
        }
    }
    mods.sort_by(|a, b| a.0.cmp(&b.0));
    let mut summary = vec![];
    let only: Vec<String> = match std::env::var("PV_ONLY") {
        Ok(p) => std::fs::read_to_string(p).expect("PV_ONLY").lines().map(|l| l.to_string()).collect(),
        Err(_) => vec![],
    };
    for (w, p, token, m) in mods {
        let path = std::path::Path::new(outdir).join(format!("{w}.jsonl"));
        let mut e = Explorer::new(tcx, &path, w.starts_with("wx_"));
        if w.starts_with("wb_") {
            e.limit = 12_000_000;
        }
        if let Some(t) = token {
            if let Some(l) = only.iter().find(|l| l.split(' ').next() == Some(w.as_str())) {
                e.only = Some((t, l.split(' ').skip(1).map(|x| x.to_string()).collect()));
            }
        }
        // what can be named from outside of the module
        let mut items = vec![];
        for c in tcx.module_children_local(m.expect_local()).iter() {
            let inside = match c.vis {
                ty::Visibility::Public => false,
                ty::Visibility::Restricted(r) => tcx.is_descendant_of(r.to_def_id(), m),
            };
            if !inside {
                items.push(js(&format!("{} {}", c.res.descr(), c.ident.name)));
            }
        }
        items.sort();
        writeln!(e.out, "[\"H\",\"items\",[{}]]", items.join(",")).unwrap();
        let mut pf = vec![];
        for f in tcx.adt_def(p).all_fields() {
            let inside = match f.vis {
                ty::Visibility::Public => false,
                ty::Visibility::Restricted(r) => tcx.is_descendant_of(r, m),
            };
            if !inside {
                pf.push(js(f.name.as_str()));
            }
        }
        writeln!(e.out, "[\"H\",\"pub_fields\",[{}]]", pf.join(",")).unwrap();
        writeln!(e.out, "[\"H\",\"facts\",{}]", crate::facts::Facts::of_module(tcx, m.expect_local()).json()).unwrap();
        if std::env::var_os("PV_FACTS").is_some() {
            e.finish();
            summary.push(js(&w));
            continue;
        }
        let r = e.explore_parser(p, token, !w.starts_with("wb_"));
        if let Err(m) = r {
            let l = e.leaf('U', &m);
            let _ = l;
        }
        if let Some(t) = token {
            e.explore_methods(t);
        }
        e.finish();
        summary.push(js(&w));
    }
    std::fs::write(
        std::path::Path::new(outdir).join(format!("{krate}.done")),
        format!("[{}]", summary.join(",")),
    )
    .unwrap();
}
