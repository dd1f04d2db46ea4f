//! Abstract interpreter over monomorphic MIR.
//!
//! Domain: integers are constants, user values are opaque provenance names ("symbols"), aggregates are
//! tracked structurally, the parser stack is a known suffix over an unknown rest.  Anything the domain
//! cannot represent stops the run with `Cut::Unsupported` (fail closed).

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, BasicBlock, BinOp, CastKind, Const, ConstValue, Local, Operand, Place, PlaceTy,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum A {
    Local(u32, u32),
    Heap(u32),
    Global(u32),
    /// the slice of all entries of stack k / one entry (path[0] = Idx(abs))
    Stack(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    F(u32),
    I(i64),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub a: A,
    pub path: Vec<P>,
    pub meta: Option<u64>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V<'tcx> {
    Uninit,
    Int(u128),
    Agg(u32, Rc<Vec<V<'tcx>>>),
    Ptr(Rc<Ptr>),
    Fn(Instance<'tcx>),
    Sym(u32, Ty<'tcx>),
    Stk(u32),
}

pub fn agg<'tcx>(variant: u32, f: Vec<V<'tcx>>) -> V<'tcx> {
    V::Agg(variant, Rc::new(f))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame<'tcx> {
    pub body: u32,
    pub bb: u32,
    pub si: u32,
    pub locals: Vec<V<'tcx>>,
    pub dest: Option<Rc<Ptr>>,
    pub target: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Below {
    Bottom,
    PredOf(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Stack<'tcx> {
    pub known: Vec<V<'tcx>>,
    pub below: Below,
    pub base: i64,
    pub elem: Ty<'tcx>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct St<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub heap: Vec<V<'tcx>>,
    pub stacks: Vec<Stack<'tcx>>,
    pub root_ret: Option<Ty<'tcx>>,
}

pub enum Cut<'tcx> {
    /// synchronisation point: state is to be canonicalised and merged
    Sync,
    /// stack k must be materialised one entry down
    Mat(u32),
    /// symbol must be split into the variants of its enum type
    Fork(u32, Ty<'tcx>),
    /// unknown integer switch: possible targets of the current terminator
    Any(Vec<(String, u32)>),
    Return(V<'tcx>),
    Panic(String),
    Diverge(String),
    Unsupported(String),
}

pub struct BodyInfo<'tcx> {
    pub body: mir::Body<'tcx>,
    pub inst: Instance<'tcx>,
    pub name: String,
    pub returns_result: bool,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub bodies: Vec<Rc<BodyInfo<'tcx>>>,
    pub body_map: HashMap<Instance<'tcx>, u32>,
    pub globals: Vec<V<'tcx>>,
    pub global_tys: Vec<Ty<'tcx>>,
    pub global_map: HashMap<(AllocId, u64, Ty<'tcx>), u32>,
    pub const_cache: HashMap<(u32, usize), V<'tcx>>,
    pub resolve_cache: HashMap<Ty<'tcx>, Rc<Callee<'tcx>>>,
    pub steps: u64,
    pub total_steps: u64,
    pub next_sym: u32,
    pub events: Vec<String>,
    pub fns_seen: std::collections::BTreeSet<String>,
    pub step_limit: u64,
    pub sync_on_push: bool,
}

pub struct Callee<'tcx> {
    pub inst: Option<Instance<'tcx>>,
    pub path: String,
    pub full: String,
    pub rust_call: bool,
    pub kind: CalleeKind,
    pub ret: Ty<'tcx>,
    pub inputs: Vec<Ty<'tcx>>,
    pub args: ty::GenericArgsRef<'tcx>,
    pub def_id: DefId,
}
#[derive(Clone, PartialEq, Debug)]
pub enum CalleeKind {
    Mir,
    Hook(String),
    Vec(String),
    Slice(String),
    Intrinsic(String),
    Forget,
    FmtArgs,
    Never,
    Nop,
    BoxNew,
}

type R<'tcx, T> = Result<T, Cut<'tcx>>;

fn uns<'tcx, T>(s: impl Into<String>) -> R<'tcx, T> {
    Err(Cut::Unsupported(s.into()))
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn mask(v: u128, bytes: u64) -> u128 {
    if bytes >= 16 {
        v
    } else if bytes == 0 {
        0
    } else {
        v & ((1u128 << (bytes * 8)) - 1)
    }
}
fn sext(v: u128, bytes: u64) -> i128 {
    if bytes >= 16 {
        v as i128
    } else {
        let sh = 128 - bytes * 8;
        ((v << sh) as i128) >> sh
    }
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            bodies: vec![],
            body_map: HashMap::new(),
            globals: vec![],
            global_tys: vec![],
            global_map: HashMap::new(),
            const_cache: HashMap::new(),
            resolve_cache: HashMap::new(),
            steps: 0,
            total_steps: 0,
            next_sym: 0,
            events: vec![],
            fns_seen: Default::default(),
            step_limit: 200_000,
            sync_on_push: true,
        }
    }

    pub fn body_of(&mut self, inst: Instance<'tcx>) -> R<'tcx, u32> {
        if let Some(b) = self.body_map.get(&inst) {
            return Ok(*b);
        }
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return uns(format!("no MIR for {}", tcx.def_path_str(d)));
                }
            }
            InstanceKind::Shim(_) => {}
            k => return uns(format!("instance kind {:?}", k)),
        }
        let raw = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let name = tcx.def_path_str(inst.def_id());
        let id = self.bodies.len() as u32;
        let rr = false;
        self.fns_seen.insert(name.clone());
        self.bodies.push(Rc::new(BodyInfo { body, inst, name, returns_result: rr }));
        self.body_map.insert(inst, id);
        Ok(id)
    }

    pub fn size_of(&self, t: Ty<'tcx>) -> u64 {
        match t.kind() {
            TyKind::Bool => 1,
            TyKind::Char => 4,
            TyKind::Int(i) => i.bit_width().map(|b| b / 8).unwrap_or(8),
            TyKind::Uint(i) => i.bit_width().map(|b| b / 8).unwrap_or(8),
            _ => self
                .tcx
                .layout_of(self.env.as_query_input(t))
                .map(|l| l.size.bytes())
                .unwrap_or(0),
        }
    }
    pub fn is_zst(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            TyKind::FnDef(..) => true,
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Ref(..) | TyKind::RawPtr(..) => {
                false
            }
            TyKind::Tuple(l) if l.is_empty() => true,
            _ => self
                .tcx
                .layout_of(self.env.as_query_input(t))
                .map(|l| l.is_zst())
                .unwrap_or(false),
        }
    }
    fn signed(t: Ty<'tcx>) -> bool {
        matches!(t.kind(), TyKind::Int(_))
    }

    pub fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        t
    }

    /// field types of a variant of an aggregate type
    pub fn fields_of(&self, t: Ty<'tcx>, variant: u32) -> Option<Vec<Ty<'tcx>>> {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::Adt(ad, args) => {
                let v = ad.variants().get(VariantIdx::from_u32(variant))?;
                Some(
                    v.fields
                        .iter()
                        .map(|f| {
                            tcx.normalize_erasing_regions(self.env, f.ty(tcx, args))
                        })
                        .collect(),
                )
            }
            TyKind::Tuple(l) => Some(l.iter().collect()),
            TyKind::Closure(_, args) => Some(args.as_closure().upvar_tys().iter().collect()),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                Some(vec![*e; n as usize])
            }
            _ => None,
        }
    }

    /// a value of a zero-sized type
    pub fn zst(&self, t: Ty<'tcx>) -> V<'tcx> {
        match t.kind() {
            TyKind::Adt(ad, _) if ad.is_enum() => {
                // single inhabited variant
                for (i, _) in ad.variants().iter_enumerated() {
                    if let Some(fs) = self.fields_of(t, i.as_u32()) {
                        if fs.iter().all(|f| self.is_zst(*f)) {
                            return agg(i.as_u32(), fs.iter().map(|f| self.zst(*f)).collect());
                        }
                    }
                }
                agg(0, vec![])
            }
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Closure(..) => {
                let fs = self.fields_of(t, 0).unwrap_or_default();
                agg(0, fs.iter().map(|f| self.zst(*f)).collect())
            }
            _ => agg(0, vec![]),
        }
    }

    // ---------------------------------------------------------------- constants

    pub fn const_value(&mut self, cv: ConstValue, t: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        if self.is_zst(t) {
            return Ok(self.zst(t));
        }
        match cv {
            ConstValue::ZeroSized => Ok(self.zst(t)),
            ConstValue::Scalar(s) => self.scalar(s, t),
            ConstValue::Slice { alloc_id, meta } => {
                let (inner, elem) = match t.kind() {
                    TyKind::Ref(_, i, _) | TyKind::RawPtr(i, _) => match i.kind() {
                        TyKind::Str => (*i, tcx.types.u8),
                        TyKind::Slice(e) => (*i, *e),
                        _ => return uns(format!("const slice of {t}")),
                    },
                    _ => return uns(format!("const slice {t}")),
                };
                let _ = inner;
                let arr = Ty::new_array(tcx, elem, meta);
                let g = self.global(alloc_id, 0, arr)?;
                Ok(V::Ptr(Rc::new(Ptr { a: A::Global(g), path: vec![P::I(0)], meta: Some(meta) })))
            }
            ConstValue::Indirect { alloc_id, offset } => self.decode(alloc_id, offset.bytes(), t),
        }
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        // newtypes
        if let Some((i, ft, fs)) = self.single_field(t) {
            let v = self.scalar(s, ft)?;
            return Ok(self.wrap_fields(i, fs, v));
        }
        match t.kind() {
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => match s {
                Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(aid) {
                        return Ok(V::Fn(instance));
                    }
                    if let GlobalAlloc::VTable(..) = tcx.global_alloc(aid) {
                        return Ok(agg(0, vec![]));
                    }
                    let g = self.global(aid, off.bytes(), *inner)?;
                    Ok(V::Ptr(Rc::new(Ptr { a: A::Global(g), path: vec![], meta: None })))
                }
                Scalar::Int(i) => Ok(V::Int(i.to_bits_unchecked())),
            },
            TyKind::FnPtr(..) => match s {
                Scalar::Ptr(p, _) => {
                    let (prov, _) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Function { instance } => Ok(V::Fn(instance)),
                        _ => uns("fn ptr const"),
                    }
                }
                _ => uns("fn ptr int"),
            },
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char => match s {
                Scalar::Int(i) => Ok(V::Int(i.to_bits_unchecked())),
                _ => uns("int from ptr"),
            },
            TyKind::Adt(ad, _) if ad.is_enum() || ad.is_union() => self.destructure(ConstValue::Scalar(s), t),
            _ => self.destructure(ConstValue::Scalar(s), t),
        }
    }

    fn destructure(&mut self, cv: ConstValue, t: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        if let TyKind::Adt(ad, _) = t.kind() {
            if ad.is_union() {
                return uns(format!("const union {t}"));
            }
        }
        match t.kind() {
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {}
            _ => return uns(format!("destructure {t}")),
        }
        match tcx.try_destructure_mir_constant_for_user_output(cv, t) {
            Some(d) => {
                let variant = d.variant.map(|v| v.as_u32()).unwrap_or(0);
                let mut fs = vec![];
                for (c, ft) in d.fields.iter() {
                    fs.push(self.const_value(*c, *ft)?);
                }
                Ok(agg(variant, fs))
            }
            None => uns(format!("cannot destructure constant of {t}")),
        }
    }

    fn alloc_bytes(&mut self, aid: AllocId) -> R<'tcx, (AllocId, mir::interpret::ConstAllocation<'tcx>)> {
        let tcx = self.tcx;
        match tcx.global_alloc(aid) {
            GlobalAlloc::Memory(m) => Ok((aid, m)),
            GlobalAlloc::Static(d) => match tcx.eval_static_initializer(d) {
                Ok(a) => {
                    let id = tcx.reserve_and_set_memory_alloc(a);
                    Ok((id, a))
                }
                Err(_) => uns("static initializer"),
            },
            _ => uns("global alloc kind"),
        }
    }

    fn decode(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        let (aid, mem) = self.alloc_bytes(aid)?;
        match t.kind() {
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char => {
                let sz = self.size_of(t);
                let b = mem
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + sz) as usize);
                let mut v = 0u128;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                Ok(V::Int(v))
            }
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let es = self.size_of(*e);
                let mut fs = Vec::with_capacity(n as usize);
                for i in 0..n {
                    fs.push(self.decode(aid, off + i * es, *e)?);
                }
                Ok(agg(0, fs))
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let fat = matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str);
                let ps = 8u64;
                let s = mem
                    .inner()
                    .read_scalar(
                        &tcx,
                        mir::interpret::AllocRange { start: Size::from_bytes(off), size: Size::from_bytes(ps) },
                        true,
                    )
                    .map_err(|_| Cut::Unsupported("read ptr".into()))?;
                if fat {
                    let b = mem
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter((off + 8) as usize..(off + 16) as usize);
                    let mut meta = 0u64;
                    for (i, x) in b.iter().enumerate() {
                        meta |= (*x as u64) << (8 * i);
                    }
                    let e = match inner.kind() {
                        TyKind::Slice(e) => *e,
                        _ => tcx.types.u8,
                    };
                    match s {
                        Scalar::Ptr(p, _) => {
                            let (prov, o) = p.into_raw_parts();
                            let g = self.global(prov.alloc_id(), o.bytes(), Ty::new_array(tcx, e, meta))?;
                            Ok(V::Ptr(Rc::new(Ptr { a: A::Global(g), path: vec![P::I(0)], meta: Some(meta) })))
                        }
                        Scalar::Int(_) => {
                            // dangling empty slice
                            let g = self.new_global(agg(0, vec![]), Ty::new_array(tcx, e, 0));
                            Ok(V::Ptr(Rc::new(Ptr { a: A::Global(g), path: vec![P::I(0)], meta: Some(meta) })))
                        }
                    }
                } else {
                    self.scalar(s, t)
                }
            }
            _ => {
                if let Some((i, ft, fs)) = self.single_field(t) {
                    let v = self.decode(aid, off, ft)?;
                    return Ok(self.wrap_fields(i, fs, v));
                }
                self.destructure(ConstValue::Indirect { alloc_id: aid, offset: Size::from_bytes(off) }, t)
            }
        }
    }

    fn new_global(&mut self, v: V<'tcx>, t: Ty<'tcx>) -> u32 {
        self.globals.push(v);
        self.global_tys.push(t);
        (self.globals.len() - 1) as u32
    }
    fn global(&mut self, aid: AllocId, off: u64, t: Ty<'tcx>) -> R<'tcx, u32> {
        if let Some(g) = self.global_map.get(&(aid, off, t)) {
            return Ok(*g);
        }
        let v = if self.is_zst(t) {
            self.zst(t)
        } else {
            match t.kind() {
                TyKind::Slice(_) | TyKind::Str | TyKind::Dynamic(..) => V::Uninit,
                _ => match self.decode(aid, off, t) {
                    Ok(v) => v,
                    Err(Cut::Unsupported(_)) => V::Uninit,
                    Err(e) => return Err(e),
                },
            }
        };
        let g = self.new_global(v, t);
        self.global_map.insert((aid, off, t), g);
        Ok(g)
    }

    // ---------------------------------------------------------------- newtypes

    /// struct/tuple with exactly one non-ZST field: (index, type, all field types)
    fn single_field(&self, t: Ty<'tcx>) -> Option<(usize, Ty<'tcx>, Vec<Ty<'tcx>>)> {
        match t.kind() {
            TyKind::Adt(ad, _) if ad.is_struct() => {}
            TyKind::Tuple(_) => {}
            _ => return None,
        }
        let fs = self.fields_of(t, 0)?;
        let nz: Vec<usize> = (0..fs.len()).filter(|i| !self.is_zst(fs[*i])).collect();
        if nz.len() == 1 {
            Some((nz[0], fs[nz[0]], fs))
        } else {
            None
        }
    }
    fn wrap_fields(&self, i: usize, fs: Vec<Ty<'tcx>>, v: V<'tcx>) -> V<'tcx> {
        let mut out = vec![];
        for (j, ft) in fs.iter().enumerate() {
            if j == i {
                out.push(v.clone());
            } else {
                out.push(self.zst(*ft));
            }
        }
        agg(0, out)
    }
    fn strip(&self, v: V<'tcx>, t: Ty<'tcx>) -> (V<'tcx>, Ty<'tcx>) {
        let mut v = v;
        let mut t = t;
        loop {
            if let TyKind::Pat(b, _) = t.kind() {
                t = *b;
                continue;
            }
            if let TyKind::Adt(ad, _) = t.kind() {
                if ad.is_union() {
                    if let V::Agg(_, f) = &v {
                        if f.len() == 1 {
                            // transparent union (MaybeUninit)
                            if let Some(fs) = self.fields_of(t, 0) {
                                let sz = self.size_of(t);
                                if let Some(ft) = fs.iter().find(|x| self.size_of(**x) == sz && !self.is_zst(**x)) {
                                    v = f[0].clone();
                                    t = *ft;
                                    continue;
                                }
                            }
                        }
                    }
                    return (v, t);
                }
            }
            match self.single_field(t) {
                Some((i, ft, _)) => match &v {
                    V::Agg(0, f) if i < f.len() => {
                        v = f[i].clone();
                        t = ft;
                    }
                    _ => return (v, t),
                },
                None => return (v, t),
            }
        }
    }
    fn wrap(&self, v: V<'tcx>, t: Ty<'tcx>) -> V<'tcx> {
        if let TyKind::Pat(b, _) = t.kind() {
            return self.wrap(v, *b);
        }
        if let TyKind::Adt(ad, _) = t.kind() {
            if ad.is_union() {
                if let Some(fs) = self.fields_of(t, 0) {
                    let sz = self.size_of(t);
                    if let Some(ft) = fs.iter().find(|x| self.size_of(**x) == sz && !self.is_zst(**x)) {
                        let inner = self.wrap(v, *ft);
                        return agg(0, vec![inner]);
                    }
                }
                return agg(0, vec![v]);
            }
        }
        match self.single_field(t) {
            Some((i, ft, fs)) => {
                let inner = self.wrap(v, ft);
                self.wrap_fields(i, fs, inner)
            }
            None => v,
        }
    }

    // ---------------------------------------------------------------- memory

    fn root<'a>(&'a self, st: &'a St<'tcx>, a: A) -> R<'tcx, &'a V<'tcx>> {
        match a {
            A::Local(f, l) => match st.frames.get(f as usize).and_then(|f| f.locals.get(l as usize)) {
                Some(v) => Ok(v),
                None => uns("dangling local"),
            },
            A::Heap(h) => match st.heap.get(h as usize) {
                Some(v) => Ok(v),
                None => uns("dangling heap"),
            },
            A::Global(g) => Ok(&self.globals[g as usize]),
            A::Stack(_) => uns("raw stack access"),
        }
    }

    fn stack_slot(st: &St<'tcx>, k: u32, path: &[P]) -> R<'tcx, usize> {
        match path.first() {
            Some(P::I(i)) => {
                let s = &st.stacks[k as usize];
                let j = *i - s.base;
                if j >= 0 && (j as usize) < s.known.len() {
                    Ok(j as usize)
                } else {
                    uns("dangling stack entry")
                }
            }
            _ => uns("stack slice access"),
        }
    }

    /// Follow a path; an opaque struct on the way is reported as Err(Sym) to be expanded.
    fn get<'a>(&'a self, st: &'a St<'tcx>, p: &Ptr) -> R<'tcx, Result<&'a V<'tcx>, (u32, Ty<'tcx>)>> {
        let (mut v, rest): (&V<'tcx>, &[P]) = match p.a {
            A::Stack(k) => {
                let j = Self::stack_slot(st, k, &p.path)?;
                (&st.stacks[k as usize].known[j], &p.path[1..])
            }
            a => (self.root(st, a)?, &p.path[..]),
        };
        for e in rest {
            v = match (v, e) {
                (V::Agg(_, f), P::F(i)) => match f.get(*i as usize) {
                    Some(x) => x,
                    None => &V::Uninit,
                },
                (V::Agg(_, f), P::I(i)) => {
                    if *i < 0 || *i as usize >= f.len() {
                        return uns("out of bounds access");
                    }
                    &f[*i as usize]
                }
                (V::Sym(s, t), _) => return Ok(Err((*s, *t))),
                (V::Uninit, _) => return Ok(Ok(&V::Uninit)),
                (x, P::I(0)) => x,
                (x, e) => return uns(format!("projection {e:?} of {x:?}")),
            };
        }
        Ok(Ok(v))
    }

    pub fn read(&mut self, st: &mut St<'tcx>, p: &Ptr) -> R<'tcx, V<'tcx>> {
        loop {
            match self.get(st, p)? {
                Ok(v) => return Ok(v.clone()),
                Err((s, t)) => self.expand_struct(st, s, t)?,
            }
        }
    }

    pub fn write(&mut self, st: &mut St<'tcx>, p: &Ptr, val: V<'tcx>) -> R<'tcx, ()> {
        // expand opaque structs on the way
        loop {
            match self.get(st, p) {
                Ok(Err((s, t))) => self.expand_struct(st, s, t)?,
                _ => break,
            }
        }
        let (slot, rest): (&mut V<'tcx>, &[P]) = match p.a {
            A::Local(f, l) => match st.frames.get_mut(f as usize).and_then(|f| f.locals.get_mut(l as usize)) {
                Some(v) => (v, &p.path[..]),
                None => return uns("write to dangling local"),
            },
            A::Heap(h) => (&mut st.heap[h as usize], &p.path[..]),
            A::Global(_) => return uns("write to global memory"),
            A::Stack(k) => {
                let j = Self::stack_slot(st, k, &p.path)?;
                (&mut st.stacks[k as usize].known[j], &p.path[1..])
            }
        };
        let mut v = slot;
        for e in rest {
            if let V::Uninit = v {
                *v = agg(0, vec![]);
            }
            v = match (v, e) {
                (V::Agg(_, f), P::F(i)) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= *i as usize {
                        f.push(V::Uninit);
                    }
                    &mut f[*i as usize]
                }
                (V::Agg(_, f), P::I(i)) => {
                    let f = Rc::make_mut(f);
                    if *i < 0 {
                        return uns("negative index");
                    }
                    while f.len() <= *i as usize {
                        f.push(V::Uninit);
                    }
                    &mut f[*i as usize]
                }
                (x, P::I(0)) => x,
                (x, e) => return uns(format!("write projection {e:?} of {x:?}")),
            };
        }
        *v = val;
        Ok(())
    }

    pub fn fresh(&mut self, t: Ty<'tcx>) -> V<'tcx> {
        match t.kind() {
            TyKind::Tuple(l) if l.is_empty() => return agg(0, vec![]),
            _ => {}
        }
        let v = V::Sym(self.next_sym, t);
        self.next_sym += 1;
        v
    }

    pub fn subst(st: &mut St<'tcx>, s: u32, val: &V<'tcx>) {
        fn go<'tcx>(v: &mut V<'tcx>, s: u32, val: &V<'tcx>) {
            match v {
                V::Sym(x, _) if *x == s => *v = val.clone(),
                V::Agg(_, f) => {
                    if has(f, s) {
                        for x in Rc::make_mut(f).iter_mut() {
                            go(x, s, val)
                        }
                    }
                }
                _ => {}
            }
        }
        fn has<'tcx>(f: &[V<'tcx>], s: u32) -> bool {
            f.iter().any(|x| match x {
                V::Sym(y, _) => *y == s,
                V::Agg(_, g) => has(g, s),
                _ => false,
            })
        }
        for f in &mut st.frames {
            for l in &mut f.locals {
                go(l, s, val)
            }
        }
        for l in &mut st.heap {
            go(l, s, val)
        }
        for k in &mut st.stacks {
            for l in &mut k.known {
                go(l, s, val)
            }
        }
    }

    fn expand_struct(&mut self, st: &mut St<'tcx>, s: u32, t: Ty<'tcx>) -> R<'tcx, ()> {
        let single = match t.kind() {
            TyKind::Adt(ad, _) => ad.variants().len() == 1 && !ad.is_union(),
            TyKind::Tuple(_) => true,
            _ => false,
        };
        if !single {
            if let TyKind::Adt(ad, _) = t.kind() {
                if ad.is_enum() {
                    return Err(Cut::Fork(s, t));
                }
            }
            return uns(format!("projection of opaque {t}"));
        }
        let val = self.variant_value(t, 0);
        self.expand_event(s, t, &val);
        Self::subst(st, s, &val);
        Ok(())
    }

    pub fn variant_value(&mut self, t: Ty<'tcx>, variant: u32) -> V<'tcx> {
        let fs = self.fields_of(t, variant).unwrap_or_default();
        let mut out = vec![];
        for f in fs {
            if self.is_zst(f) {
                // zero-sized user types still are values with an identity
                match f.kind() {
                    TyKind::Adt(ad, _) if ad.did().is_local() => out.push(self.fresh(f)),
                    _ => out.push(self.zst(f)),
                }
            } else {
                out.push(self.fresh(f))
            }
        }
        agg(variant, out)
    }
    pub fn expand_event(&mut self, s: u32, t: Ty<'tcx>, val: &V<'tcx>) {
        let sh = self.shape_novisit(val, t);
        self.events.push(format!("[\"expand\",{s},{sh}]"));
    }
    pub fn shape_novisit(&self, v: &V<'tcx>, t: Ty<'tcx>) -> String {
        let st = St { frames: vec![], heap: vec![], stacks: vec![], root_ret: None };
        self.shape(&st, v, t, 0)
    }

    pub fn shape(&self, st: &St<'tcx>, v: &V<'tcx>, t: Ty<'tcx>, depth: u32) -> String {
        if depth > 12 {
            return "\"...\"".into();
        }
        match v {
            V::Uninit if t.is_unit() => "[\"t\"]".into(),
            V::Uninit => "null".into(),
            V::Int(i) => {
                if Self::signed(t) {
                    format!("{}", sext(*i, self.size_of(t)))
                } else if t.is_bool() {
                    (if *i != 0 { "true" } else { "false" }).into()
                } else {
                    format!("{}", i)
                }
            }
            V::Sym(s, _) => format!("[\"s\",{s}]"),
            V::Fn(i) => format!("[\"fn\",{}]", js(&self.tcx.def_path_str(i.def_id()))),
            V::Stk(k) => format!("[\"stk\",{k}]"),
            V::Agg(var, f) => {
                let fs = self.fields_of(t, *var).unwrap_or_default();
                let mut o = String::from("[");
                match t.kind() {
                    TyKind::Adt(ad, _) if ad.is_enum() => {
                        o.push_str("\"e\",");
                        o.push_str(&js(ad.variant(VariantIdx::from_u32(*var)).name.as_str()));
                    }
                    TyKind::Adt(ad, _) => {
                        o.push_str("\"st\",");
                        o.push_str(&js(self.tcx.item_name(ad.did()).as_str()));
                    }
                    _ => o.push_str("\"t\""),
                }
                for (i, x) in f.iter().enumerate() {
                    o.push(',');
                    match fs.get(i) {
                        Some(ft) => o.push_str(&self.shape(st, x, *ft, depth + 1)),
                        None => o.push_str("\"?\""),
                    }
                }
                o.push(']');
                o
            }
            V::Ptr(p) => {
                let inner = match t.kind() {
                    TyKind::Ref(_, i, _) | TyKind::RawPtr(i, _) => *i,
                    _ => return "[\"ptr\"]".into(),
                };
                if let TyKind::Str = inner.kind() {
                    return match self.str_of(st, p) {
                        Some(s) => js(&s),
                        None => "[\"str\"]".into(),
                    };
                }
                if p.meta.is_some() {
                    return "[\"slice\"]".into();
                }
                match self.get(st, p) {
                    Ok(Ok(x)) => format!("[\"r\",{}]", self.shape(st, x, inner, depth + 1)),
                    Ok(Err(_)) => {
                        // a part of an opaque value
                        let mut q = (**p).clone();
                        let mut rest = vec![];
                        while let Some(e) = q.path.pop() {
                            rest.push(e);
                            if let Ok(Ok(V::Sym(s, _))) = self.get(st, &q) {
                                let mut o = format!("[\"s\",{s}]");
                                while let Some(e) = rest.pop() {
                                    o = match e {
                                        P::F(i) => format!("[\"f\",{i},{o}]"),
                                        P::I(i) => format!("[\"i\",{i},{o}]"),
                                    };
                                }
                                return format!("[\"r\",{o}]");
                            }
                        }
                        "[\"ptr\"]".into()
                    }
                    _ => "[\"ptr\"]".into(),
                }
            }
        }
    }

    pub fn str_of(&self, st: &St<'tcx>, p: &Ptr) -> Option<String> {
        let n = p.meta? as usize;
        let mut q = p.clone();
        let start = match q.path.pop() {
            Some(P::I(i)) => i as usize,
            _ => return None,
        };
        q.meta = None;
        match self.get(st, &q) {
            Ok(Ok(V::Agg(_, f))) => {
                let mut b = vec![];
                for x in f.iter().skip(start).take(n) {
                    match x {
                        V::Int(i) => b.push(*i as u8),
                        _ => return None,
                    }
                }
                String::from_utf8(b).ok()
            }
            _ => None,
        }
    }

    fn strings_in(&self, st: &St<'tcx>, v: &V<'tcx>, out: &mut Vec<String>, depth: u32) {
        if depth > 6 {
            return;
        }
        match v {
            V::Ptr(p) => {
                if let Some(s) = self.str_of(st, p) {
                    out.push(s);
                } else if let Ok(Ok(x)) = self.get(st, p) {
                    let x = x.clone();
                    self.strings_in(st, &x, out, depth + 1)
                }
            }
            V::Agg(_, f) => {
                if f.len() < 16 {
                    for x in f.iter() {
                        self.strings_in(st, x, out, depth + 1)
                    }
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- places and operands

    fn place(&mut self, st: &mut St<'tcx>, fi: usize, pl: &Place<'tcx>) -> R<'tcx, (Ptr, Ty<'tcx>)> {
        let tcx = self.tcx;
        let b = self.bodies[st.frames[fi].body as usize].clone();
        let mut pt = PlaceTy::from_ty(b.body.local_decls[pl.local].ty);
        let mut p = Ptr { a: A::Local(fi as u32, pl.local.as_u32()), path: vec![], meta: None };
        for e in pl.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read(st, &p)?;
                    match v {
                        V::Ptr(q) => p = (*q).clone(),
                        V::Agg(..) => {
                            // Box<T>
                            let (v, _) = self.strip(v, pt.ty);
                            match v {
                                V::Ptr(q) => p = (*q).clone(),
                                V::Agg(_, f) => {
                                    // Box { Unique { NonNull(ptr), PhantomData }, alloc }
                                    let mut cur = f.first().cloned();
                                    loop {
                                        match cur {
                                            Some(V::Agg(_, ref g)) => cur = g.first().cloned(),
                                            _ => break,
                                        }
                                    }
                                    match cur {
                                        Some(V::Ptr(q)) => p = (*q).clone(),
                                        _ => return uns("deref of box"),
                                    }
                                }
                                _ => return uns("deref of aggregate"),
                            }
                        }
                        V::Sym(s, t) => {
                            // opaque reference: its referent is named after it
                            return uns(format!("deref of opaque {t} (s{s})"));
                        }
                        V::Stk(_) => return uns("deref of stack"),
                        x => return uns(format!("deref of {x:?}")),
                    }
                }
                ProjectionElem::Field(f, _) => {
                    let mut idx = f.as_u32();
                    if let TyKind::Adt(ad, _) = pt.ty.kind() {
                        if ad.is_union() {
                            idx = 0;
                        }
                    }
                    p.path.push(P::F(idx));
                    p.meta = None;
                }
                ProjectionElem::Index(l) => {
                    let i = match &st.frames[fi].locals[l.as_usize()] {
                        V::Int(i) => *i as i64,
                        V::Sym(..) => return uns("unknown index"),
                        x => return uns(format!("index {x:?}")),
                    };
                    self.index(&mut p, i)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end {
                        let n = self.len_of(st, &p, pt.ty)?;
                        n - offset
                    } else {
                        offset
                    };
                    self.index(&mut p, i as i64)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.len_of(st, &p, pt.ty)?;
                    let end = if from_end { n - to } else { to };
                    self.index(&mut p, from as i64)?;
                    p.meta = Some(end - from);
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) => {}
                x => return uns(format!("projection {x:?}")),
            }
            pt = pt.projection_ty(tcx, e);
        }
        Ok((p, pt.ty))
    }
    fn index(&self, p: &mut Ptr, i: i64) -> R<'tcx, ()> {
        if p.meta.is_some() {
            // slice: last path element is the start index
            match p.path.last_mut() {
                Some(P::I(j)) => *j += i,
                _ => return uns("index of slice without base"),
            }
            p.meta = None;
        } else {
            p.path.push(P::I(i));
        }
        Ok(())
    }
    fn len_of(&mut self, _st: &mut St<'tcx>, p: &Ptr, t: Ty<'tcx>) -> R<'tcx, u64> {
        match t.kind() {
            TyKind::Array(_, n) => n.try_to_target_usize(self.tcx).ok_or(Cut::Unsupported("array len".into())),
            _ => match p.meta {
                Some(m) => Ok(m),
                None => uns("len of thin"),
            },
        }
    }

    fn operand(&mut self, st: &mut St<'tcx>, fi: usize, op: &Operand<'tcx>) -> R<'tcx, V<'tcx>> {
        match op {
            Operand::Copy(p) => {
                if p.projection.is_empty() {
                    return Ok(st.frames[fi].locals[p.local.as_usize()].clone());
                }
                let (q, _) = self.place(st, fi, p)?;
                self.read(st, &q)
            }
            Operand::Move(p) => {
                if p.projection.is_empty() {
                    return Ok(std::mem::replace(&mut st.frames[fi].locals[p.local.as_usize()], V::Uninit));
                }
                let (q, t) = self.place(st, fi, p)?;
                let v = self.read(st, &q)?;
                if !matches!(t.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char) {
                    self.write(st, &q, V::Uninit)?;
                }
                Ok(v)
            }
            Operand::Constant(c) => {
                let key = (st.frames[fi].body, &**c as *const _ as usize);
                if let Some(v) = self.const_cache.get(&key) {
                    return Ok(v.clone());
                }
                let v = self.eval_const(&c.const_)?;
                self.const_cache.insert(key, v.clone());
                Ok(v)
            }
            Operand::RuntimeChecks(_) => Ok(V::Int(0)),
        }
    }
    fn eval_const(&mut self, c: &Const<'tcx>) -> R<'tcx, V<'tcx>> {
        let t = c.ty();
        if let TyKind::FnDef(..) = t.kind() {
            return Ok(agg(0, vec![]));
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(cv) => self.const_value(cv, t),
            Err(_) => uns(format!("const eval of {t}")),
        }
    }

    fn op_ty(&self, st: &St<'tcx>, fi: usize, op: &Operand<'tcx>) -> Ty<'tcx> {
        let b = &self.bodies[st.frames[fi].body as usize];
        op.ty(&b.body.local_decls, self.tcx)
    }

    // ---------------------------------------------------------------- rvalues

    fn binop(&mut self, op: BinOp, a: V<'tcx>, b: V<'tcx>, t: Ty<'tcx>, tb: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        use BinOp::*;
        let tcx = self.tcx;
        // pointers
        if let (V::Ptr(p), V::Ptr(q)) = (&a, &b) {
            let same = p.a == q.a
                && p.path.len() == q.path.len()
                && (p.path.is_empty() || p.path[..p.path.len() - 1] == q.path[..q.path.len() - 1]);
            let ord = if p == q {
                std::cmp::Ordering::Equal
            } else if same {
                match (p.path.last(), q.path.last()) {
                    (Some(P::I(x)), Some(P::I(y))) => x.cmp(y),
                    _ => std::cmp::Ordering::Less,
                }
            } else {
                std::cmp::Ordering::Less
            };
            let r = match op {
                Eq => ord.is_eq(),
                Ne => ord.is_ne(),
                Lt if same => ord.is_lt(),
                Le if same => ord.is_le(),
                Gt if same => ord.is_gt(),
                Ge if same => ord.is_ge(),
                _ => return uns("pointer comparison"),
            };
            return Ok(V::Int(r as u128));
        }
        if let (V::Ptr(p), Offset) = (&a, op) {
            if let V::Int(n) = b {
                return Ok(V::Ptr(Rc::new(Self::offset(p, sext(n, 8) as i64)?)));
            }
        }
        if matches!(a, V::Ptr(_)) || matches!(b, V::Ptr(_)) {
            if let (V::Ptr(_), V::Int(_)) | (V::Int(_), V::Ptr(_)) = (&a, &b) {
                // comparison with null or an address
                return match op {
                    Eq => Ok(V::Int(0)),
                    Ne => Ok(V::Int(1)),
                    _ => uns("pointer arithmetic"),
                };
            }
        }
        let (x, y) = match (&a, &b) {
            (V::Int(x), V::Int(y)) => (*x, *y),
            (V::Agg(_, f), V::Agg(_, g)) if f.is_empty() && g.is_empty() => {
                // unit comparison
                return Ok(V::Int(matches!(op, Eq | Le | Ge) as u128));
            }
            (V::Uninit, _) | (_, V::Uninit) => return uns("read of uninitialised value"),
            _ => {
                // unknown operand
                let rt = match op {
                    Eq | Ne | Lt | Le | Gt | Ge => tcx.types.bool,
                    AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                        let s = self.fresh(t);
                        return Ok(agg(0, vec![s, V::Int(0)]));
                    }
                    Cmp => return uns("cmp of unknown"),
                    _ => t,
                };
                return Ok(self.fresh(rt));
            }
        };
        let n = self.size_of(t);
        let sg = Self::signed(t);
        let (sx, sy) = (sext(x, n), sext(y, n));
        let arith = |op: BinOp| -> (u128, bool) {
            if sg {
                let r = match op {
                    Add => sx.checked_add(sy),
                    Sub => sx.checked_sub(sy),
                    _ => sx.checked_mul(sy),
                };
                match r {
                    Some(r) => {
                        let m = mask(r as u128, n);
                        (m, sext(m, n) != r)
                    }
                    None => (0, true),
                }
            } else {
                let r = match op {
                    Add => x.checked_add(y),
                    Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match r {
                    Some(r) => {
                        let m = mask(r, n);
                        (m, m != r)
                    }
                    None => (
                        mask(
                            match op {
                                Add => x.wrapping_add(y),
                                Sub => x.wrapping_sub(y),
                                _ => x.wrapping_mul(y),
                            },
                            n,
                        ),
                        true,
                    ),
                }
            }
        };
        let bl = |b: bool| Ok(V::Int(b as u128));
        match op {
            Add | AddUnchecked => Ok(V::Int(arith(Add).0)),
            Sub | SubUnchecked => Ok(V::Int(arith(Sub).0)),
            Mul | MulUnchecked => Ok(V::Int(arith(Mul).0)),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (r, o) = arith(match op {
                    AddWithOverflow => Add,
                    SubWithOverflow => Sub,
                    _ => Mul,
                });
                Ok(agg(0, vec![V::Int(r), V::Int(o as u128)]))
            }
            Div | Rem => {
                if y == 0 {
                    return uns("division by zero");
                }
                Ok(V::Int(if sg {
                    mask((if op == Div { sx.wrapping_div(sy) } else { sx.wrapping_rem(sy) }) as u128, n)
                } else if op == Div {
                    x / y
                } else {
                    x % y
                }))
            }
            BitXor => Ok(V::Int(x ^ y)),
            BitAnd => Ok(V::Int(x & y)),
            BitOr => Ok(V::Int(x | y)),
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let nb = self.size_of(tb);
                let sh = (mask(y, nb) % ((n as u128) * 8)) as u32;
                Ok(V::Int(match op {
                    Shl | ShlUnchecked => mask(x << sh, n),
                    _ => {
                        if sg {
                            mask((sx >> sh) as u128, n)
                        } else {
                            x >> sh
                        }
                    }
                }))
            }
            Eq => bl(x == y),
            Ne => bl(x != y),
            Lt => bl(if sg { sx < sy } else { x < y }),
            Le => bl(if sg { sx <= sy } else { x <= y }),
            Gt => bl(if sg { sx > sy } else { x > y }),
            Ge => bl(if sg { sx >= sy } else { x >= y }),
            Cmp => {
                let o = if sg { sx.cmp(&sy) } else { x.cmp(&y) };
                Ok(agg(
                    match o {
                        std::cmp::Ordering::Less => 0,
                        std::cmp::Ordering::Equal => 1,
                        std::cmp::Ordering::Greater => 2,
                    },
                    vec![],
                ))
            }
            Offset => uns("offset of integer"),
        }
    }
    fn offset(p: &Ptr, n: i64) -> R<'tcx, Ptr> {
        let mut q = p.clone();
        match q.path.last_mut() {
            Some(P::I(i)) => *i += n,
            _ => {
                if n == 0 {
                    return Ok(q);
                }
                q.path.push(P::I(n));
            }
        }
        Ok(q)
    }

    fn discr(&self, t: Ty<'tcx>, variant: u32) -> u128 {
        match t.discriminant_for_variant(self.tcx, VariantIdx::from_u32(variant)) {
            Some(d) => d.val,
            None => 0,
        }
    }

    fn rvalue(&mut self, st: &mut St<'tcx>, fi: usize, rv: &Rvalue<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, _) => self.operand(st, fi, op),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, fi, op)?;
                let n = n.try_to_target_usize(tcx).ok_or(Cut::Unsupported("repeat".into()))?;
                Ok(agg(0, vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let (q, _) = self.place(st, fi, p)?;
                Ok(V::Ptr(Rc::new(q)))
            }
            Rvalue::Reborrow(_, _, p) => {
                let (q, _) = self.place(st, fi, p)?;
                Ok(V::Ptr(Rc::new(q)))
            }
            Rvalue::CopyForDeref(p) => {
                let (q, _) = self.place(st, fi, p)?;
                self.read(st, &q)
            }
            Rvalue::BinaryOp(op, ab) => {
                let ta = self.op_ty(st, fi, &ab.0);
                let tb = self.op_ty(st, fi, &ab.1);
                let a = self.operand(st, fi, &ab.0)?;
                let b = self.operand(st, fi, &ab.1)?;
                self.binop(*op, a, b, ta, tb)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.op_ty(st, fi, a);
                let v = self.operand(st, fi, a)?;
                let n = self.size_of(t);
                match (op, v) {
                    (UnOp::Not, V::Int(x)) => {
                        if t.is_bool() {
                            Ok(V::Int((x == 0) as u128))
                        } else {
                            Ok(V::Int(mask(!x, n)))
                        }
                    }
                    (UnOp::Neg, V::Int(x)) => Ok(V::Int(mask((x as i128).wrapping_neg() as u128, n))),
                    (UnOp::PtrMetadata, V::Ptr(p)) => match p.meta {
                        Some(m) => Ok(V::Int(m as u128)),
                        None => Ok(agg(0, vec![])),
                    },
                    (_, V::Sym(..)) => Ok(self.fresh(t)),
                    (o, v) => uns(format!("unop {o:?} {v:?}")),
                }
            }
            Rvalue::Discriminant(p) => {
                let (q, t) = self.place(st, fi, p)?;
                let v = self.read(st, &q)?;
                match v {
                    V::Agg(var, _) => Ok(V::Int(self.discr(t, var))),
                    V::Sym(s, st_) => Err(Cut::Fork(s, st_)),
                    V::Int(_) => Ok(v),
                    x => uns(format!("discriminant of {x:?}: {t}")),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fs = Vec::with_capacity(ops.len());
                for o in ops.iter() {
                    fs.push(self.operand(st, fi, o)?);
                }
                match &**k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Ok(agg(0, fs)),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        if active.is_some() {
                            return Ok(agg(0, fs));
                        }
                        Ok(agg(v.as_u32(), fs))
                    }
                    AggregateKind::RawPtr(..) => match (&fs[0], &fs[1]) {
                        (V::Ptr(p), V::Int(m)) => {
                            let mut q = (**p).clone();
                            q.meta = Some(*m as u64);
                            if !matches!(q.path.last(), Some(P::I(_))) {
                                q.path.push(P::I(0));
                            }
                            Ok(V::Ptr(Rc::new(q)))
                        }
                        (V::Ptr(p), V::Agg(..)) => Ok(V::Ptr(p.clone())),
                        _ => uns("raw ptr aggregate"),
                    },
                    x => uns(format!("aggregate {x:?}")),
                }
            }
            Rvalue::Cast(k, op, t) => {
                let tf = self.op_ty(st, fi, op);
                let v = self.operand(st, fi, op)?;
                self.cast(st, k, v, tf, *t)
            }
            x => uns(format!("rvalue {x:?}")),
        }
    }

    fn cast(&mut self, _st: &mut St<'tcx>, k: &CastKind, v: V<'tcx>, tf: Ty<'tcx>, t: Ty<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        match k {
            CastKind::IntToInt => match v {
                V::Int(x) => {
                    let n = self.size_of(tf);
                    let x = if Self::signed(tf) { sext(x, n) as u128 } else { x };
                    Ok(V::Int(mask(x, self.size_of(t))))
                }
                V::Agg(var, _) if tf.is_enum() => {
                    let d = self.discr(tf, var);
                    Ok(V::Int(mask(d, self.size_of(t))))
                }
                V::Sym(..) => Ok(self.fresh(t)),
                x => uns(format!("int cast of {x:?}")),
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => match v {
                V::Ptr(p) => {
                    let fat = |t: Ty<'tcx>| match t.kind() {
                        TyKind::RawPtr(i, _) | TyKind::Ref(_, i, _) => {
                            matches!(i.kind(), TyKind::Slice(_) | TyKind::Str | TyKind::Dynamic(..))
                        }
                        _ => false,
                    };
                    if fat(t) {
                        Ok(V::Ptr(p))
                    } else {
                        let mut q = (*p).clone();
                        q.meta = None;
                        // casting a pointer to an array to a pointer to its elements
                        if let (TyKind::RawPtr(i, _), TyKind::RawPtr(o, _)) = (tf.kind(), t.kind()) {
                            if let TyKind::Array(e, _) = i.kind() {
                                if e == o {
                                    q.path.push(P::I(0));
                                }
                            }
                        }
                        Ok(V::Ptr(Rc::new(q)))
                    }
                }
                x => Ok(x),
            },
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer => Ok(v),
                PointerCoercion::ArrayToPointer => match v {
                    V::Ptr(p) => {
                        let mut q = (*p).clone();
                        q.path.push(P::I(0));
                        Ok(V::Ptr(Rc::new(q)))
                    }
                    _ => uns("array to pointer"),
                },
                PointerCoercion::ReifyFnPointer(_) => match tf.kind() {
                    TyKind::FnDef(d, a) => {
                        Ok(V::Fn(Instance::expect_resolve(tcx, self.env, *d, a.no_bound_vars().unwrap(), DUMMY_SP)))
                    }
                    _ => uns("reify"),
                },
                PointerCoercion::ClosureFnPointer(_) => match tf.kind() {
                    TyKind::Closure(d, a) => {
                        Ok(V::Fn(Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce)))
                    }
                    _ => uns("closure fn pointer"),
                },
                PointerCoercion::Unsize => match v {
                    V::Ptr(p) => {
                        let (fi, ti) = match (tf.kind(), t.kind()) {
                            (
                                TyKind::Ref(_, a, _) | TyKind::RawPtr(a, _),
                                TyKind::Ref(_, b, _) | TyKind::RawPtr(b, _),
                            ) => (*a, *b),
                            _ => return uns("unsize of non reference"),
                        };
                        match (fi.kind(), ti.kind()) {
                            (TyKind::Array(_, n), TyKind::Slice(_)) => {
                                let mut q = (*p).clone();
                                q.path.push(P::I(0));
                                q.meta = n.try_to_target_usize(tcx);
                                Ok(V::Ptr(Rc::new(q)))
                            }
                            _ => Ok(V::Ptr(p)),
                        }
                    }
                    x => Ok(x),
                },
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                if tf == t {
                    return Ok(v);
                }
                if self.is_zst(t) {
                    return Ok(self.zst(t));
                }
                let (v, tf) = self.strip(v, tf);
                if let (V::Int(x), TyKind::Adt(ad, _)) = (&v, t.kind()) {
                    if ad.is_enum() {
                        for i in 0..ad.variants().len() {
                            if mask(self.discr(t, i as u32), self.size_of(t)) == *x {
                                return Ok(agg(i as u32, vec![]));
                            }
                        }
                        return uns("transmute to enum");
                    }
                }
                if let (V::Agg(var, f), TyKind::Adt(ad, _)) = (&v, tf.kind()) {
                    if ad.is_enum() && f.is_empty() && t.is_integral() {
                        return Ok(V::Int(mask(self.discr(tf, *var), self.size_of(t))));
                    }
                }
                Ok(self.wrap(v, t))
            }
            x => uns(format!("cast {x:?} {tf} -> {t}")),
        }
    }

    // ---------------------------------------------------------------- drops

    /// record which opaque values a drop destroys
    pub fn drop_value(&mut self, st: &mut St<'tcx>, v: &V<'tcx>, out: &mut Vec<String>) {
        match v {
            V::Sym(s, _) => out.push(format!("{s}")),
            V::Agg(_, f) => {
                for x in f.iter() {
                    self.drop_value(st, x, out)
                }
            }
            V::Stk(k) => {
                let ents = std::mem::take(&mut st.stacks[*k as usize].known);
                for e in &ents {
                    self.drop_value(st, e, out);
                }
                let b = st.stacks[*k as usize].below;
                if b != Below::Bottom {
                    out.push("\"rest\"".into());
                }
                st.stacks[*k as usize].below = Below::Bottom;
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- execution

    pub fn push_frame(
        &mut self,
        st: &mut St<'tcx>,
        inst: Instance<'tcx>,
        args: Vec<V<'tcx>>,
        rust_call: bool,
        dest: Option<Rc<Ptr>>,
        target: Option<u32>,
    ) -> R<'tcx, ()> {
        if st.frames.len() > 300 {
            return Err(Cut::Diverge("recursion".into()));
        }
        let b = self.body_of(inst)?;
        let bi = self.bodies[b as usize].clone();
        let n = bi.body.local_decls.len();
        let ac = bi.body.arg_count;
        let mut locals = vec![V::Uninit; n];
        let mut args = args;
        if rust_call && !args.is_empty() {
            // untuple the last argument
            let last = args.pop().unwrap();
            match last {
                V::Agg(_, f) => args.extend(f.iter().cloned()),
                x => return uns(format!("rust-call tuple {x:?}")),
            }
        }
        if let Some(sp) = bi.body.spread_arg {
            let k = sp.as_usize() - 1;
            let rest: Vec<V<'tcx>> = args.drain(k.min(args.len())..).collect();
            args.push(agg(0, rest));
        }
        if args.len() != ac {
            return uns(format!("arity of {}: {} vs {}", bi.name, args.len(), ac));
        }
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        // zero sized locals are always initialised
        for (l, d) in bi.body.local_decls.iter_enumerated() {
            if l.as_usize() > ac && self.is_zst(d.ty) {
                locals[l.as_usize()] = self.zst(d.ty);
            }
        }
        st.frames.push(Frame { body: b, bb: 0, si: 0, locals, dest, target });
        Ok(())
    }

    pub fn run(&mut self, st: &mut St<'tcx>) -> Cut<'tcx> {
        self.steps = 0;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Cut::Unsupported(m)) => {
                    let mut loc = String::new();
                    for f in st.frames.iter().rev().take(4) {
                        let b = &self.bodies[f.body as usize];
                        loc.push_str(&format!(" in {} bb{}[{}];", b.name, f.bb, f.si));
                    }
                    return Cut::Unsupported(format!("{m}{loc}"));
                }
                Err(c) => return c,
            }
            self.steps += 1;
            self.total_steps += 1;
            if self.steps > self.step_limit {
                let f = st.frames.last().map(|f| self.bodies[f.body as usize].name.clone()).unwrap_or_default();
                return Cut::Diverge(format!("step limit in {f}"));
            }
        }
    }

    fn step(&mut self, st: &mut St<'tcx>) -> R<'tcx, ()> {
        let fi = st.frames.len() - 1;
        let (b, bb, si) = {
            let f = &st.frames[fi];
            (self.bodies[f.body as usize].clone(), f.bb, f.si)
        };
        let blk = &b.body.basic_blocks[BasicBlock::from_u32(bb)];
        if (si as usize) < blk.statements.len() {
            let s = &blk.statements[si as usize];
            match &s.kind {
                StatementKind::Assign(bx) => {
                    let (pl, rv) = &**bx;
                    let v = self.rvalue(st, fi, rv)?;
                    if pl.projection.is_empty() {
                        st.frames[fi].locals[pl.local.as_usize()] = v;
                    } else {
                        let (q, _) = self.place(st, fi, pl)?;
                        self.write(st, &q, v)?;
                    }
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let (q, _) = self.place(st, fi, place)?;
                    let v = self.read(st, &q)?;
                    let f = match v {
                        V::Agg(_, f) => (*f).clone(),
                        V::Uninit => vec![],
                        _ => return uns("set discriminant"),
                    };
                    self.write(st, &q, agg(variant_index.as_u32(), f))?;
                }
                StatementKind::StorageDead(l) => {
                    let t = b.body.local_decls[*l].ty;
                    st.frames[fi].locals[l.as_usize()] = if self.is_zst(t) { self.zst(t) } else { V::Uninit };
                }
                _ => {}
            }
            st.frames[fi].si += 1;
            return Ok(());
        }
        let term = blk.terminator();
        let goto = |st: &mut St<'tcx>, t: BasicBlock| {
            st.frames[fi].bb = t.as_u32();
            st.frames[fi].si = 0;
        };
        match &term.kind {
            TerminatorKind::Goto { target, .. } => goto(st, *target),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                goto(st, *real_target)
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                // peek without moving, so that the cut can be resumed
                let op = match discr {
                    Operand::Move(p) => Operand::Copy(*p),
                    x => x.clone(),
                };
                let v = self.operand(st, fi, &op)?;
                match v {
                    V::Int(x) => {
                        let t = targets.target_for_value(x);
                        goto(st, t);
                    }
                    V::Sym(s, t) => {
                        if let TyKind::Adt(ad, _) = t.kind() {
                            if ad.is_enum() {
                                return Err(Cut::Fork(s, t));
                            }
                        }
                        let mut o: Vec<(String, u32)> = vec![];
                        for (v, t) in targets.iter() {
                            o.push((format!("{v}"), t.as_u32()));
                        }
                        o.push(("_".into(), targets.otherwise().as_u32()));
                        o.retain(|(_, t)| {
                            !matches!(
                                b.body.basic_blocks[BasicBlock::from_u32(*t)].terminator().kind,
                                TerminatorKind::Unreachable
                            ) || !b.body.basic_blocks[BasicBlock::from_u32(*t)].statements.is_empty()
                        });
                        return Err(Cut::Any(o));
                    }
                    x => return uns(format!("switch on {x:?}")),
                }
            }
            TerminatorKind::Return => {
                let f = st.frames.pop().unwrap();
                let v = f.locals[0].clone();
                match (f.dest, f.target) {
                    (Some(d), Some(t)) => {
                        self.write(st, &d, v)?;
                        let fr = st.frames.last_mut().unwrap();
                        fr.bb = t;
                        fr.si = 0;
                    }
                    _ => {
                        if st.frames.is_empty() {
                            return Err(Cut::Return(v));
                        }
                        return uns("return without destination");
                    }
                }
            }
            TerminatorKind::Unreachable => return uns("reached unreachable"),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return uns("unwinding"),
            TerminatorKind::Drop { place, target, .. } => {
                let (q, t) = self.place(st, fi, place)?;
                if t.needs_drop(self.tcx, self.env) {
                    if let TyKind::Adt(ad, _) = t.kind() {
                        if ad.did().is_local() && ad.has_dtor(self.tcx) {
                            let dp = self.tcx.def_path_str(ad.did());
                            if !dp.contains("hooks::") {
                                // generated type with a destructor of its own: out of the domain
                                return uns(format!("destructor of {dp}"));
                            }
                        }
                    }
                    let v = self.read(st, &q)?;
                    let mut out = vec![];
                    self.drop_value(st, &v, &mut out);
                    if !out.is_empty() {
                        self.events.push(format!("[\"drop\",[{}]]", out.join(",")));
                    }
                    self.write(st, &q, V::Uninit)?;
                }
                goto(st, *target);
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, fi, cond)?;
                match v {
                    V::Int(x) => {
                        if (x != 0) == *expected {
                            goto(st, *target);
                        } else {
                            let d = match &**msg {
                                mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                                mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow {op:?}"),
                                x => format!("assert {x:?}"),
                            };
                            return Err(Cut::Panic(format!("{d} in {}", b.name)));
                        }
                    }
                    V::Sym(..) => goto(st, *target),
                    x => return uns(format!("assert on {x:?}")),
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                return self.call(st, fi, &b, func, args, destination, *target);
            }
            x => return uns(format!("terminator {x:?}")),
        }
        Ok(())
    }

    fn callee(&mut self, fty: Ty<'tcx>) -> R<'tcx, Rc<Callee<'tcx>>> {
        if let Some(c) = self.resolve_cache.get(&fty) {
            return Ok(c.clone());
        }
        let tcx = self.tcx;
        let (did, args) = match fty.kind() {
            TyKind::FnDef(d, a) => (*d, a.no_bound_vars().ok_or_else(|| Cut::Unsupported("bound vars".into()))?),
            _ => return uns("callee type"),
        };
        let inst = match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(i)) => i,
            _ => return uns(format!("cannot resolve {}", tcx.def_path_str(did))),
        };
        let c = self.callee_inst(inst)?;
        self.resolve_cache.insert(fty, c.clone());
        Ok(c)
    }

    fn callee_inst(&mut self, inst: Instance<'tcx>) -> R<'tcx, Rc<Callee<'tcx>>> {
        let tcx = self.tcx;
        let rdid = inst.def_id();
        let path = tcx.def_path_str(rdid);
        let full = tcx.def_path_str_with_args(rdid, inst.args);
        let ity = inst.ty(tcx, self.env);
        let (ret, inputs, rust_call) = match ity.kind() {
            TyKind::FnDef(..) | TyKind::FnPtr(..) => {
                let s = ity.fn_sig(tcx);
                let s = tcx.instantiate_bound_regions_with_erased(s);
                let s = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(s));
                (s.output(), s.inputs().to_vec(), s.abi() == rustc_abi::ExternAbi::RustCall)
            }
            TyKind::Closure(_, a) => {
                let s = a.as_closure().sig();
                let s = tcx.instantiate_bound_regions_with_erased(s);
                let s = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(s));
                (s.output(), s.inputs().to_vec(), true)
            }
            _ => return uns(format!("instance type {ity}")),
        };
        let kind = self.classify(&inst, rdid, &path, ret);
        Ok(Rc::new(Callee {
            inst: Some(inst),
            path,
            full,
            rust_call,
            kind,
            ret,
            inputs,
            args: inst.args,
            def_id: rdid,
        }))
    }

    fn classify(&self, inst: &Instance<'tcx>, did: DefId, path: &str, ret: Ty<'tcx>) -> CalleeKind {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        if did.is_local() {
            // functions of the witness crate's hook module are uninterpreted
            if path.split("::").any(|s| s == "hooks") || path.contains("hooks::") {
                if path.contains("WStack") {
                    return CalleeKind::Vec(name);
                }
                return CalleeKind::Hook(name);
            }
            if let InstanceKind::Item(_) = inst.def {
                return CalleeKind::Mir;
            }
        }
        if let InstanceKind::Intrinsic(_) = inst.def {
            return CalleeKind::Intrinsic(name);
        }
        if let InstanceKind::Shim(ShimKind::DropGlue(_, _)) = inst.def {
            return CalleeKind::Intrinsic("drop_in_place".into());
        }
        if ret.is_never() {
            return CalleeKind::Never;
        }
        let krate = tcx.crate_name(did.krate);
        let kr = krate.as_str();
        if kr == "core" || kr == "alloc" || kr == "std" {
            // inherent and trait methods of Vec
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                if let TyKind::Adt(ad, _) = st.kind() {
                    let an = tcx.item_name(ad.did());
                    if an.as_str() == "Vec" && kr == "alloc" {
                        return CalleeKind::Vec(name);
                    }
                    if an.as_str() == "Arguments" || an.as_str() == "Argument" {
                        return CalleeKind::FmtArgs;
                    }
                    if an.as_str() == "Box" && name == "new" {
                        return CalleeKind::BoxNew;
                    }
                }
                if let TyKind::Slice(_) = st.kind() {
                    return CalleeKind::Slice(name);
                }
                if let TyKind::Array(..) = st.kind() {
                    return CalleeKind::Slice(name);
                }
            }
            if path.ends_with("mem::forget") || path.contains("ManuallyDrop::<T>::new") {
                return CalleeKind::Forget;
            }
            if name == "drop_in_place" || name == "drop_glue" {
                return CalleeKind::Intrinsic("drop_in_place".into());
            }
            if name == "precondition_check" || path.contains("assert_unsafe_precondition") {
                return CalleeKind::Nop;
            }
        }
        CalleeKind::Mir
    }

    fn option(&self, v: Option<V<'tcx>>) -> V<'tcx> {
        match v {
            None => agg(0, vec![]),
            Some(v) => agg(1, vec![v]),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut St<'tcx>,
        fi: usize,
        b: &Rc<BodyInfo<'tcx>>,
        func: &Operand<'tcx>,
        args: &[rustc_span::Spanned<Operand<'tcx>>],
        destination: &Place<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<'tcx, ()> {
        let fty = func.ty(&b.body.local_decls, self.tcx);
        let c = match fty.kind() {
            TyKind::FnDef(..) => self.callee(fty)?,
            TyKind::FnPtr(..) => {
                let v = self.operand(st, fi, &match func {
                    Operand::Move(p) => Operand::Copy(*p),
                    x => x.clone(),
                })?;
                match v {
                    V::Fn(i) => {
                        let mut i2 = i;
                        if let TyKind::FnDef(..) = i.ty(self.tcx, self.env).kind() {
                            i2 = i;
                        }
                        self.callee_inst(i2)?
                    }
                    x => return uns(format!("call of {x:?}")),
                }
            }
            _ => return uns(format!("call of {fty}")),
        };

        // operations that may need a stack entry from below: decide before moving operands
        if let CalleeKind::Vec(_) | CalleeKind::Slice(_) = &c.kind {
            if let Some(r) = self.stack_call(st, fi, &c, args, destination, target)? {
                let _ = r;
                return Ok(());
            }
        }
        let mut vals = Vec::with_capacity(args.len());
        for a in args {
            vals.push(self.operand(st, fi, &a.node)?);
        }
        let ret_to = |me: &mut Self, st: &mut St<'tcx>, v: V<'tcx>| -> R<'tcx, ()> {
            let (q, _) = me.place(st, fi, destination)?;
            me.write(st, &q, v)?;
            match target {
                Some(t) => {
                    st.frames[fi].bb = t.as_u32();
                    st.frames[fi].si = 0;
                    Ok(())
                }
                None => uns("call without target returned"),
            }
        };
        match &c.kind {
            CalleeKind::Hook(name) => {
                let mut o = format!("[\"hook\",{},[", js(name));
                let mut first = true;
                for a in c.args.iter() {
                    let s = if let Some(k) = a.as_const() {
                        match k.try_to_target_usize(self.tcx) {
                            Some(n) => format!("{n}"),
                            None => js(&format!("{k}")),
                        }
                    } else if let Some(t) = a.as_type() {
                        js(&format!("{t}"))
                    } else {
                        continue;
                    };
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&s);
                }
                o.push_str("],[");
                for (i, v) in vals.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let t = c.inputs.get(i).copied().unwrap_or(self.tcx.types.unit);
                    o.push_str(&self.shape(st, v, t, 0));
                }
                o.push_str("],");
                if c.ret.is_never() {
                    o.push_str("null]");
                    self.events.push(o);
                    return Err(Cut::Panic(format!("hook {name} does not return")));
                }
                let r = self.fresh(c.ret);
                o.push_str(&self.shape(st, &r, c.ret, 0));
                o.push(']');
                self.events.push(o);
                ret_to(self, st, r)
            }
            CalleeKind::Never => {
                let mut ss = vec![];
                for v in &vals {
                    self.strings_in(st, v, &mut ss, 0);
                }
                let mut m = format!("{} in {}", c.path, b.name);
                if !ss.is_empty() {
                    m.push_str(": ");
                    m.push_str(&ss.join(" | "));
                }
                Err(Cut::Panic(m))
            }
            CalleeKind::FmtArgs => ret_to(self, st, agg(0, vals)),
            CalleeKind::Nop => {
                let z = self.zst(c.ret);
                ret_to(self, st, z)
            }
            CalleeKind::Forget => {
                let mut out = vec![];
                for v in &vals {
                    collect_syms(v, &mut out);
                }
                self.events.push(format!(
                    "[\"forget\",[{}]]",
                    out.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                ));
                if c.path.ends_with("forget") {
                    ret_to(self, st, agg(0, vec![]))
                } else {
                    let v = agg(0, vals);
                    ret_to(self, st, v)
                }
            }
            CalleeKind::BoxNew => {
                let h = st.heap.len() as u32;
                st.heap.push(vals.into_iter().next().unwrap());
                let p = V::Ptr(Rc::new(Ptr { a: A::Heap(h), path: vec![], meta: None }));
                let v = self.wrap_box(p, c.ret);
                ret_to(self, st, v)
            }
            CalleeKind::Intrinsic(name) => {
                let name = name.clone();
                let v = self.intrinsic(st, &name, vals, &c)?;
                ret_to(self, st, v)
            }
            CalleeKind::Vec(n) => uns(format!("unmodelled stack operation {n} ({})", c.full)),
            CalleeKind::Mir | CalleeKind::Slice(_) => {
                let inst = c.inst.unwrap();
                if let InstanceKind::Virtual(..) = inst.def {
                    return uns(format!("virtual call {}", c.path));
                }
                let (q, _) = self.place(st, fi, destination)?;
                self.push_frame(st, inst, vals, c.rust_call, Some(Rc::new(q)), target.map(|t| t.as_u32()))
            }
        }
    }

    fn wrap_box(&self, p: V<'tcx>, t: Ty<'tcx>) -> V<'tcx> {
        self.wrap(p, t)
    }

    /// Vec / custom stack operations.  Returns None when the call is not about a modelled stack.
    fn stack_call(
        &mut self,
        st: &mut St<'tcx>,
        fi: usize,
        c: &Rc<Callee<'tcx>>,
        args: &[rustc_span::Spanned<Operand<'tcx>>],
        destination: &Place<'tcx>,
        target: Option<BasicBlock>,
    ) -> R<'tcx, Option<()>> {
        let (is_vec, name) = match &c.kind {
            CalleeKind::Vec(n) => (true, n.as_str()),
            CalleeKind::Slice(n) => (false, n.as_str()),
            _ => return Ok(None),
        };
        // peek receiver
        let peek = |op: &Operand<'tcx>| match op {
            Operand::Move(p) => Operand::Copy(*p),
            x => x.clone(),
        };
        let done = |me: &mut Self, st: &mut St<'tcx>, v: V<'tcx>| -> R<'tcx, Option<()>> {
            let (q, _) = me.place(st, fi, destination)?;
            me.write(st, &q, v)?;
            match target {
                Some(t) => {
                    st.frames[fi].bb = t.as_u32();
                    st.frames[fi].si = 0;
                }
                None => return uns("stack call without target"),
            }
            Ok(Some(()))
        };
        if is_vec && (name == "new" || name == "with_capacity" || name == "default") {
            let k = st.stacks.len() as u32;
            let elem = match c.ret.kind() {
                TyKind::Adt(_, a) => a.type_at(0),
                _ => return uns("stack type"),
            };
            st.stacks.push(Stack { known: vec![], below: Below::Bottom, base: 0, elem });
            return done(self, st, V::Stk(k));
        }
        if args.is_empty() {
            return Ok(None);
        }
        let recv = self.operand(st, fi, &peek(&args[0].node))?;
        // which stack?
        let k = match &recv {
            V::Stk(k) => *k,
            V::Ptr(p) => match p.a {
                A::Stack(k) if p.path.is_empty() => k,
                A::Stack(_) => return Ok(None),
                _ if p.meta.is_some() => return Ok(None),
                _ => match self.get(st, p)? {
                    Ok(V::Stk(k)) => *k,
                    Ok(V::Ptr(q)) => match q.a {
                        A::Stack(k) if q.path.is_empty() => k,
                        _ => return Ok(None),
                    },
                    _ => return Ok(None),
                },
            },
            _ => return Ok(None),
        };
        let ku = k as usize;
        let slice_ptr = || V::Ptr(Rc::new(Ptr { a: A::Stack(k), path: vec![], meta: None }));
        let entry_ptr = |st: &St<'tcx>, j: usize| {
            V::Ptr(Rc::new(Ptr { a: A::Stack(k), path: vec![P::I(st.stacks[ku].base + j as i64)], meta: None }))
        };
        match name {
            "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" => {
                let v = slice_ptr();
                done(self, st, v)
            }
            "push" => {
                let v = self.operand(st, fi, &args[1].node)?;
                if st.stacks[ku].known.is_empty() && st.stacks[ku].below != Below::Bottom {
                    // the entry below must be known so that adjacency is recorded
                    // undo the move
                    if let Operand::Move(p) = &args[1].node {
                        let (q, _) = self.place(st, fi, p)?;
                        self.write(st, &q, v)?;
                    }
                    return Err(Cut::Mat(k));
                }
                let sh = self.shape(st, &v, st.stacks[ku].elem, 0);
                self.events.push(format!("[\"push\",{sh}]"));
                st.stacks[ku].known.push(v);
                done(self, st, agg(0, vec![]))?;
                if self.sync_on_push {
                    return Err(Cut::Sync);
                }
                Ok(Some(()))
            }
            "pop" => {
                if st.stacks[ku].known.is_empty() {
                    if st.stacks[ku].below != Below::Bottom {
                        return Err(Cut::Mat(k));
                    }
                    self.events.push("[\"popempty\"]".into());
                    let v = self.option(None);
                    return done(self, st, v);
                }
                let v = st.stacks[ku].known.pop().unwrap();
                let sh = self.shape(st, &v, st.stacks[ku].elem, 0);
                self.events.push(format!("[\"pop\",{sh}]"));
                let v = self.option(Some(v));
                done(self, st, v)
            }
            "last" | "last_mut" => {
                if st.stacks[ku].known.is_empty() {
                    if st.stacks[ku].below != Below::Bottom {
                        return Err(Cut::Mat(k));
                    }
                    let v = self.option(None);
                    return done(self, st, v);
                }
                let j = st.stacks[ku].known.len() - 1;
                let p = entry_ptr(st, j);
                let v = self.option(Some(p));
                done(self, st, v)
            }
            "is_empty" => {
                if st.stacks[ku].known.is_empty() && st.stacks[ku].below != Below::Bottom {
                    return Err(Cut::Mat(k));
                }
                let e = st.stacks[ku].known.is_empty();
                done(self, st, V::Int(e as u128))
            }
            "len" => {
                if st.stacks[ku].below == Below::Bottom {
                    let n = st.stacks[ku].known.len();
                    return done(self, st, V::Int(n as u128));
                }
                let v = self.fresh(self.tcx.types.usize);
                done(self, st, v)
            }
            "capacity" => {
                let v = self.fresh(self.tcx.types.usize);
                done(self, st, v)
            }
            "reserve" | "shrink_to_fit" => done(self, st, agg(0, vec![])),
            "clear" => {
                let mut out = vec![];
                let v = V::Stk(k);
                self.drop_value(st, &v, &mut out);
                self.events.push(format!("[\"clear\",[{}]]", out.join(",")));
                done(self, st, agg(0, vec![]))
            }
            "truncate" if st.stacks[ku].below == Below::Bottom => {
                let n = match self.operand(st, fi, &args[1].node)? {
                    V::Int(n) => n as usize,
                    _ => return uns("truncate to unknown"),
                };
                while st.stacks[ku].known.len() > n {
                    let v = st.stacks[ku].known.pop().unwrap();
                    let sh = self.shape(st, &v, st.stacks[ku].elem, 0);
                    self.events.push(format!("[\"pop\",{sh}]"));
                    let mut out = vec![];
                    self.drop_value(st, &v, &mut out);
                    if !out.is_empty() {
                        self.events.push(format!("[\"drop\",[{}]]", out.join(",")));
                    }
                }
                done(self, st, agg(0, vec![]))
            }
            _ => uns(format!("unmodelled stack operation {name}")),
        }
    }

    fn intrinsic(&mut self, st: &mut St<'tcx>, name: &str, vals: Vec<V<'tcx>>, c: &Callee<'tcx>) -> R<'tcx, V<'tcx>> {
        let tcx = self.tcx;
        let t0 = c.args.types().next();
        let int = |v: &V<'tcx>| match v {
            V::Int(i) => Some(*i),
            _ => None,
        };
        match name {
            "drop_in_place" => {
                if let Some(V::Ptr(p)) = vals.first() {
                    let v = self.read(st, p)?;
                    let mut out = vec![];
                    self.drop_value(st, &v, &mut out);
                    if !out.is_empty() {
                        self.events.push(format!("[\"drop\",[{}]]", out.join(",")));
                    }
                    self.write(st, p, V::Uninit)?;
                }
                Ok(agg(0, vec![]))
            }
            "read_via_copy" | "volatile_load" => match &vals[0] {
                V::Ptr(p) => self.read(st, p),
                x => uns(format!("read via {x:?}")),
            },
            "write_via_move" => match &vals[0] {
                V::Ptr(p) => {
                    let p = p.clone();
                    self.write(st, &p, vals[1].clone())?;
                    Ok(agg(0, vec![]))
                }
                x => uns(format!("write via {x:?}")),
            },
            "typed_swap_nonoverlapping" => match (&vals[0], &vals[1]) {
                (V::Ptr(p), V::Ptr(q)) => {
                    let (p, q) = (p.clone(), q.clone());
                    let a = self.read(st, &p)?;
                    let b = self.read(st, &q)?;
                    self.write(st, &p, b)?;
                    self.write(st, &q, a)?;
                    Ok(agg(0, vec![]))
                }
                _ => uns("swap"),
            },
            "saturating_add" | "saturating_sub" => {
                let t = t0.unwrap();
                let n = self.size_of(t);
                match (int(&vals[0]), int(&vals[1])) {
                    (Some(x), Some(y)) => {
                        let r = if Self::signed(t) {
                            let (sx, sy) = (sext(x, n), sext(y, n));
                            let r = if name == "saturating_add" { sx + sy } else { sx - sy };
                            let max = (1i128 << (n * 8 - 1)) - 1;
                            mask(r.clamp(-max - 1, max) as u128, n)
                        } else if name == "saturating_add" {
                            let m = mask(u128::MAX, n);
                            (x + y).min(m)
                        } else {
                            x.saturating_sub(y)
                        };
                        Ok(V::Int(r))
                    }
                    _ => Ok(self.fresh(t)),
                }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let t = t0.unwrap();
                let op = if name.ends_with("add") {
                    BinOp::Add
                } else if name.ends_with("sub") {
                    BinOp::Sub
                } else {
                    BinOp::Mul
                };
                let mut it = vals.into_iter();
                let (a, b) = (it.next().unwrap(), it.next().unwrap());
                self.binop(op, a, b, t, t)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let t = t0.unwrap();
                let op = if name.starts_with("add") {
                    BinOp::AddWithOverflow
                } else if name.starts_with("sub") {
                    BinOp::SubWithOverflow
                } else {
                    BinOp::MulWithOverflow
                };
                let mut it = vals.into_iter();
                let (a, b) = (it.next().unwrap(), it.next().unwrap());
                self.binop(op, a, b, t, t)
            }
            "likely" | "unlikely" | "black_box" => Ok(vals.into_iter().next().unwrap()),
            "cold_path" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => {
                Ok(agg(0, vec![]))
            }
            "size_of" | "min_align_of" | "align_of" => {
                let t = t0.unwrap();
                let n = if name == "size_of" { self.size_of(t) } else { 8 };
                Ok(V::Int(n as u128))
            }
            "needs_drop" => Ok(V::Int(t0.unwrap().needs_drop(tcx, self.env) as u128)),
            "discriminant_value" => {
                let t = t0.unwrap();
                match &vals[0] {
                    V::Ptr(p) => match self.read(st, p)? {
                        V::Agg(v, _) => Ok(V::Int(self.discr(t, v))),
                        V::Sym(s, t) => Err(Cut::Fork(s, t)),
                        x => uns(format!("discriminant_value {x:?}")),
                    },
                    x => uns(format!("discriminant_value {x:?}")),
                }
            }
            "offset" | "arith_offset" => {
                let mut it = vals.into_iter();
                match (it.next(), it.next()) {
                    (Some(V::Ptr(p)), Some(V::Int(n))) => Ok(V::Ptr(Rc::new(Self::offset(&p, sext(n, 8) as i64)?))),
                    _ => uns("offset"),
                }
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => match (&vals[0], &vals[1]) {
                (V::Ptr(p), V::Ptr(q)) => match (p.path.last(), q.path.last()) {
                    (Some(P::I(x)), Some(P::I(y))) if p.a == q.a => Ok(V::Int(mask((x - y) as u128, 8))),
                    _ if p == q => Ok(V::Int(0)),
                    _ => uns("ptr_offset_from"),
                },
                _ => uns("ptr_offset_from"),
            },
            "ptr_metadata" => match &vals[0] {
                V::Ptr(p) => Ok(p.meta.map(|m| V::Int(m as u128)).unwrap_or(agg(0, vec![]))),
                _ => uns("ptr_metadata"),
            },
            "aggregate_raw_ptr" => match (&vals[0], &vals[1]) {
                (V::Ptr(p), V::Int(m)) => {
                    let mut q = (**p).clone();
                    q.meta = Some(*m as u64);
                    Ok(V::Ptr(Rc::new(q)))
                }
                (V::Ptr(p), _) => Ok(V::Ptr(p.clone())),
                _ => uns("aggregate_raw_ptr"),
            },
            "slice_get_unchecked" => match (&vals[0], &vals[1]) {
                (V::Ptr(p), V::Int(i)) => {
                    let mut q = (**p).clone();
                    self.index(&mut q, *i as i64)?;
                    Ok(V::Ptr(Rc::new(q)))
                }
                _ => uns("slice_get_unchecked"),
            },
            "transmute" | "transmute_unchecked" => {
                let mut ts = c.args.types();
                let (a, b) = (ts.next().unwrap(), ts.next().unwrap());
                let v = vals.into_iter().next().unwrap();
                self.cast(st, &CastKind::Transmute, v, a, b)
            }
            "ub_checks" | "contract_checks" => Ok(V::Int(0)),
            "overflow_checks" => Ok(V::Int(1)),
            "is_val_statically_known" => Ok(V::Int(0)),
            "three_way_compare" => {
                let t = t0.unwrap();
                let mut it = vals.into_iter();
                let (a, b) = (it.next().unwrap(), it.next().unwrap());
                self.binop(BinOp::Cmp, a, b, t, t)
            }
            "integer_min" | "integer_max" => {
                let t = t0.unwrap();
                match self.binop(BinOp::Lt, vals[0].clone(), vals[1].clone(), t, t)? {
                    V::Int(lt) => Ok(vals[if (lt == 1) == (name == "integer_min") { 0 } else { 1 }].clone()),
                    _ => Ok(self.fresh(t)),
                }
            }
            "unchecked_div" | "unchecked_rem" | "exact_div" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" => {
                let mut ts = c.args.types();
                let t = ts.next().unwrap();
                let u = ts.next().unwrap_or(t);
                let op = match name {
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    _ => BinOp::BitOr,
                };
                self.binop(op, vals[0].clone(), vals[1].clone(), t, u)
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let n = self.size_of(t0.unwrap()) as u32 * 8;
                match int(&vals[0]) {
                    Some(x) => Ok(V::Int(match &name[..4] {
                        "ctpo" => x.count_ones(),
                        "ctlz" => n - (128 - x.leading_zeros()),
                        _ => x.trailing_zeros().min(n),
                    } as u128)),
                    None => uns(format!("intrinsic {name} of an unknown value")),
                }
            }
            "rotate_left" | "rotate_right" => {
                let n = self.size_of(t0.unwrap()) as u32 * 8;
                match (int(&vals[0]), int(&vals[1])) {
                    (Some(x), Some(k)) => {
                        let k = k as u32 % n;
                        let k = if name == "rotate_left" { k } else { (n - k) % n };
                        Ok(V::Int(if k == 0 { x } else { mask(x << k | x >> (n - k), (n / 8) as _) }))
                    }
                    _ => uns(format!("intrinsic {name} of an unknown value")),
                }
            }
            "select_unpredictable" => match int(&vals[0]) {
                Some(b) => Ok(vals[if b == 1 { 1 } else { 2 }].clone()),
                None => uns("select of an unknown value"),
            },
            "abort" | "abort_immediate" => Err(Cut::Panic("abort".into())),
            "unreachable" => uns("unreachable intrinsic"),
            "type_name" | "type_id" | "caller_location" => Ok(agg(0, vec![])),
            _ => {
                // intrinsic with a fallback body
                if let Some(i) = c.inst {
                    let _ = i;
                }
                uns(format!("intrinsic {name}"))
            }
        }
    }
}

pub fn collect_syms<'tcx>(v: &V<'tcx>, out: &mut Vec<u32>) {
    match v {
        V::Sym(s, _) => out.push(*s),
        V::Agg(_, f) => {
            for x in f.iter() {
                collect_syms(x, out)
            }
        }
        _ => {}
    }
}

pub fn _unused(_: FieldIdx, _: Local) {}
