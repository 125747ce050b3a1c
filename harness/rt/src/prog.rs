//! Builder programs: a value tree turned into a random legal sequence of
//! builder calls that can be replayed on any builder.
use crate::sut::*;
use crate::{with_st, with_struct};
use butte::*;
use model::gen::VGen;
use model::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Op {
    pub ty: Ty,
    pub val: Val,
    /// which of the equivalent calls to use
    pub how: u8,
    /// tables: push order of field indices, and whether default-aware
    pub order: Vec<(usize, bool)>,
    pub junk: bool,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub env: Env,
    pub ops: Vec<Op>,
    pub root: Arc<TVal>,
    /// what each table of the program must look like on the wire
    pub wire: HashMap<usize, Arc<TVal>>,
    pub wire_vec: HashMap<usize, Val>,
    pub ident: Option<String>,
    pub size_prefix: bool,
    pub max_align: usize,
}

pub fn vptr(v: &Val) -> usize {
    match v {
        Val::Str(a) => Arc::as_ptr(a) as usize,
        Val::Bytes(a) => Arc::as_ptr(a) as usize,
        Val::Tab(a) => Arc::as_ptr(a) as usize,
        Val::Vec(a) => Arc::as_ptr(a) as usize,
        _ => panic!("harness: vptr"),
    }
}

fn children(env: &Env, ty: &Ty, v: &Val) -> Vec<(Ty, Val)> {
    match (ty, v) {
        (Ty::Vec(e), Val::Vec(xs)) if e.is_ref() => xs.iter().map(|x| ((**e).clone(), x.clone())).collect(),
        (Ty::Tab(t), Val::Tab(tv)) => env.tables[*t]
            .fields
            .iter()
            .zip(&tv.f)
            .filter(|(f, v)| f.ty.is_ref() && v.is_some())
            .map(|(f, v)| (f.ty.clone(), v.clone().unwrap()))
            .collect(),
        _ => vec![],
    }
}

impl Prog {
    pub fn gen(r: &mut Rng, budget: usize) -> Prog {
        let env = gen::rand_env(r);
        Prog::gen_env(r, env, budget)
    }
    pub fn gen_env(r: &mut Rng, env: Env, budget: usize) -> Prog {
        let rt = r.below(env.tables.len());
        let share = r.chance(2, 3);
        let mut g = VGen::new(r, &env, budget, share);
        let root = g.table(rt, 0);
        // values never reachable from the root
        let mut junk: Vec<(Ty, Val)> = vec![];
        let nj = g.r.below(4);
        for _ in 0..nj {
            g.budget = 10;
            let ty = match g.r.below(4) {
                0 => Ty::Str,
                1 => Ty::Tab(g.r.below(env.tables.len())),
                2 => Ty::vec(Ty::S(*g.r.pick(&ALL_ST))),
                _ => Ty::Bytes,
            };
            if let Some(v) = g.val(&ty, 6) {
                junk.push((ty, v));
            }
        }
        if !cfg!(miri) && g.r.chance(1, 60) {
            // push everything written before or after beyond 16-bit distances
            let n = g.r.range(60_000, 200_000);
            junk.push((Ty::Bytes, Val::Bytes(Arc::new((0..n).map(|_| g.r.u64() as u8).collect()))));
        }
        Prog::of(r, env, root, junk)
    }
    /// A program that builds this tree, and some objects outside it.
    pub fn of(r: &mut Rng, env: Env, root: Arc<TVal>, junk: Vec<(Ty, Val)>) -> Prog {
        let rt = root.ty;
        // all objects, children before parents but otherwise in random order
        let mut objs: Vec<(Ty, Val, bool)> = vec![];
        let mut index: HashMap<usize, usize> = HashMap::new();
        let mut deps: Vec<Vec<usize>> = vec![];
        fn visit(
            env: &Env,
            ty: &Ty,
            v: &Val,
            junk: bool,
            objs: &mut Vec<(Ty, Val, bool)>,
            index: &mut HashMap<usize, usize>,
            deps: &mut Vec<Vec<usize>>,
        ) -> usize {
            if let Some(i) = index.get(&vptr(v)) {
                return *i;
            }
            let kids: Vec<usize> = children(env, ty, v)
                .iter()
                .map(|(t, v)| visit(env, t, v, junk, objs, index, deps))
                .collect();
            let i = objs.len();
            objs.push((ty.clone(), v.clone(), junk));
            deps.push(kids);
            index.insert(vptr(v), i);
            i
        }
        visit(&env, &Ty::Tab(rt), &Val::Tab(root.clone()), false, &mut objs, &mut index, &mut deps);
        for (t, v) in &junk {
            visit(&env, t, v, true, &mut objs, &mut index, &mut deps);
        }
        let n = objs.len();
        let mut left: Vec<usize> = deps.iter().map(|d| { let mut d = d.clone(); d.sort_unstable(); d.dedup(); d.len() }).collect();
        let mut users: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, d) in deps.iter().enumerate() {
            let mut d = d.clone();
            d.sort_unstable();
            d.dedup();
            for k in d {
                users[k].push(i);
            }
        }
        let mut ready: Vec<usize> = (0..n).filter(|i| left[*i] == 0).collect();
        let mut ops = vec![];
        let depth_first = r.bool();
        while !ready.is_empty() {
            let k = if depth_first { ready.len() - 1 } else { r.below(ready.len()) };
            let i = ready.swap_remove(k);
            for u in &users[i] {
                left[*u] -= 1;
                if left[*u] == 0 {
                    ready.push(*u);
                }
            }
            let (ty, val, junk) = objs[i].clone();
            let mut order = vec![];
            if let Val::Tab(tv) = &val {
                for (k, v) in tv.f.iter().enumerate() {
                    if let Some(v) = v {
                        let aware = matches!(v, Val::S(_)) && env.tables[tv.ty].fields[k].default.is_some() && r.bool();
                        order.push((k, aware));
                    }
                }
                match r.below(3) {
                    0 => {}
                    1 => order.reverse(),
                    _ => r.shuffle(&mut order),
                }
            }
            ops.push(Op { ty, val, how: r.below(3) as u8, order, junk });
        }
        assert_eq!(ops.len(), n, "harness: topological order");
        let mut p = Prog {
            env,
            ops,
            root,
            wire: HashMap::new(),
            wire_vec: HashMap::new(),
            ident: if r.chance(1, 3) { Some(rand_ident(r)) } else { None },
            size_prefix: r.chance(1, 3),
            max_align: 4,
        };
        p.compute_wire();
        p
    }

    fn compute_wire(&mut self) {
        fn conv(v: &Val, w: &HashMap<usize, Arc<TVal>>, vecs: &mut HashMap<usize, Val>) -> Val {
            match v {
                Val::Tab(t) => Val::Tab(w[&(Arc::as_ptr(t) as usize)].clone()),
                Val::Vec(xs) => {
                    let p = Arc::as_ptr(xs) as usize;
                    if let Some(v) = vecs.get(&p) {
                        return v.clone();
                    }
                    let n = Val::Vec(Arc::new(xs.iter().map(|x| conv(x, w, vecs)).collect()));
                    vecs.insert(p, n.clone());
                    n
                }
                _ => v.clone(),
            }
        }
        let mut w: HashMap<usize, Arc<TVal>> = HashMap::new();
        let mut vecs = HashMap::new();
        let mut ma = 4;
        for op in &self.ops {
            if let Ty::Vec(e) = &op.ty {
                ma = ma.max(e.inline_align(&self.env));
            }
            if let Val::Tab(t) = &op.val {
                let fs = &self.env.tables[t.ty].fields;
                let mut f: Vec<Option<Val>> = vec![None; t.f.len()];
                for (k, aware) in &op.order {
                    let v = t.f[*k].as_ref().unwrap();
                    if *aware {
                        if let (Val::S(s), Some(d)) = (v, fs[*k].default) {
                            if s.num_eq(d) {
                                continue;
                            }
                        }
                    }
                    ma = ma.max(fs[*k].ty.inline_align(&self.env));
                    f[*k] = Some(conv(v, &w, &mut vecs));
                }
                w.insert(Arc::as_ptr(t) as usize, Arc::new(TVal { ty: t.ty, f }));
            }
        }
        self.max_align = ma;
        self.wire = w;
        self.wire_vecs(vecs);
    }
    fn wire_vecs(&mut self, vecs: HashMap<usize, Val>) {
        // remember wire forms of vectors in the ops' order via a side table
        let mut vv = HashMap::new();
        for op in &self.ops {
            if let Val::Vec(xs) = &op.val {
                let p = Arc::as_ptr(xs) as usize;
                if let Some(v) = vecs.get(&p) {
                    vv.insert(p, v.clone());
                }
            }
        }
        self.wire_vec = vv;
    }
    pub fn wire_of(&self, v: &Val) -> Val {
        match v {
            Val::Tab(t) => Val::Tab(self.wire[&(Arc::as_ptr(t) as usize)].clone()),
            Val::Vec(xs) => self.wire_vec.get(&(Arc::as_ptr(xs) as usize)).cloned().unwrap_or_else(|| {
                Val::Vec(Arc::new(xs.iter().map(|x| self.wire_of(x)).collect()))
            }),
            _ => v.clone(),
        }
    }
    pub fn wire_root(&self) -> Arc<TVal> {
        self.wire[&(Arc::as_ptr(&self.root) as usize)].clone()
    }
}

pub fn rand_ident(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "\u{0}\u{0}\u{0}\u{0}".into(),
        1 => "é\u{7ff}".into(),
        2 => "漢x".into(),
        _ => (0..4).map(|_| (b'A' + r.below(26) as u8) as char).collect(),
    }
}

pub struct Run {
    pub offs: HashMap<usize, u32>,
    /// (type, value, offset) of every object written, in order
    pub log: Vec<(Ty, Val, u32)>,
}

pub enum Any {}

/// create_vector_direct exists for the types whose memory is the wire format;
/// bool is not one of them.
pub trait Direct: ToSc + Push {
    fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32;
    /// what safe_slice says, for the types that have it
    fn safe(buf: &[u8], loc: usize) -> Option<Result<Vec<Sc>, Error>>;
}
fn scs<T: ToSc>(r: Result<&[T], Error>) -> Option<Result<Vec<Sc>, Error>> {
    Some(r.map(|s| s.iter().map(|x| x.sc()).collect()))
}
macro_rules! direct_impl {
    ($($t:ident)*) => {$(
        impl Direct for $t {
            #[cfg(target_endian = "little")]
            fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32 {
                b.create_vector_direct::<$t>(v).value()
            }
            #[cfg(target_endian = "little")]
            fn safe(buf: &[u8], loc: usize) -> Option<Result<Vec<Sc>, Error>> {
                scs(Vector::<$t>::new(buf, loc).safe_slice())
            }
            #[cfg(target_endian = "big")]
            fn safe(_buf: &[u8], _loc: usize) -> Option<Result<Vec<Sc>, Error>> {
                None
            }
            #[cfg(target_endian = "big")]
            fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32 {
                b.create_vector::<$t>(v).value()
            }
        }
    )*}
}
direct_impl!(u16 i16 u32 i32 u64 i64 f32 f64);
impl Direct for u8 {
    fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32 {
        b.create_vector_direct::<u8>(v).value()
    }
    fn safe(buf: &[u8], loc: usize) -> Option<Result<Vec<Sc>, Error>> {
        scs(Vector::<u8>::new(buf, loc).safe_slice())
    }
}
impl Direct for i8 {
    fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32 {
        b.create_vector_direct::<i8>(v).value()
    }
    fn safe(buf: &[u8], loc: usize) -> Option<Result<Vec<Sc>, Error>> {
        scs(Vector::<i8>::new(buf, loc).safe_slice())
    }
}
impl Direct for bool {
    fn direct(b: &mut FlatBufferBuilder<'_>, v: &[Self]) -> u32 {
        b.create_vector::<bool>(v).value()
    }
    fn safe(_buf: &[u8], _loc: usize) -> Option<Result<Vec<Sc>, Error>> {
        None
    }
}

fn push_field<'b>(b: &mut FlatBufferBuilder<'b>, f: &Field, v: &Val, aware: bool, offs: &HashMap<usize, u32>) {
    match v {
        Val::S(s) => with_st!(s.t, T => {
            let x = <T as ToSc>::of(*s);
            if aware {
                b.push_slot::<T>(f.slot, x, <T as ToSc>::of(f.default.expect("harness: default")));
            } else {
                b.push_slot_always::<T>(f.slot, x);
            }
        }),
        Val::Struct(x) => match &f.ty {
            Ty::Struct(k) => with_struct!(*k, T => b.push_slot_always::<T>(f.slot, T::of(x))),
            _ => panic!("harness: struct"),
        },
        _ => {
            let o = offs[&vptr(v)];
            b.push_slot_always::<WIPOffset<Any>>(f.slot, WIPOffset::new(o));
        }
    }
}

impl Prog {
    /// Performs one operation; returns the offset the builder gave.
    pub fn step(&self, b: &mut FlatBufferBuilder<'_>, i: usize, offs: &mut HashMap<usize, u32>) -> u32 {
        let op = &self.ops[i];
        let o: u32 = match (&op.ty, &op.val) {
            (Ty::Str, Val::Str(s)) => {
                if op.how == 0 {
                    b.create_byte_string(s.as_bytes()).value()
                } else {
                    b.create_string(s).value()
                }
            }
            (Ty::Bytes, Val::Bytes(s)) => b.create_byte_string(s).value(),
            (Ty::Tab(t), Val::Tab(tv)) => {
                let fs = &self.env.tables[*t].fields;
                let start = b.start_table();
                for (k, aware) in &op.order {
                    push_field(b, &fs[*k], tv.f[*k].as_ref().unwrap(), *aware, offs);
                }
                let done = b.end_table(start);
                let w = &self.wire[&(Arc::as_ptr(tv) as usize)];
                for (k, v) in w.f.iter().enumerate() {
                    if v.is_some() && op.how == 1 {
                        b.required(done, fs[k].slot, "field");
                    }
                }
                done.value()
            }
            (Ty::Vec(e), Val::Vec(xs)) => self.vector(b, e, xs, op.how, offs),
            _ => panic!("harness: op"),
        };
        offs.insert(vptr(&op.val), o);
        o
    }

    fn vector(&self, b: &mut FlatBufferBuilder<'_>, e: &Ty, xs: &[Val], how: u8, offs: &HashMap<usize, u32>) -> u32 {
        match e {
            Ty::S(t) => with_st!(*t, T => {
                let v: Vec<T> = xs.iter().map(|x| if let Val::S(s) = x { <T as ToSc>::of(*s) } else { panic!("harness") }).collect();
                match how {
                    0 => b.create_vector::<T>(&v).value(),
                    1 => <T as Direct>::direct(b, &v),
                    _ => {
                        b.start_vector::<T>(v.len());
                        for x in v.iter().rev() {
                            b.push::<T>(*x);
                        }
                        b.end_vector::<T>(v.len()).value()
                    }
                }
            }),
            Ty::Struct(k) => with_struct!(*k, T => {
                let v: Vec<T> = xs.iter().map(|x| if let Val::Struct(s) = x { T::of(s) } else { panic!("harness") }).collect();
                match how {
                    0 => b.create_vector::<T>(&v).value(),
                    1 => b.create_vector_direct::<T>(&v).value(),
                    _ => {
                        b.start_vector::<T>(v.len());
                        for x in v.iter().rev() {
                            b.push::<T>(*x);
                        }
                        b.end_vector::<T>(v.len()).value()
                    }
                }
            }),
            Ty::Str if how == 1 => {
                let v: Vec<&str> = xs.iter().map(|x| if let Val::Str(s) = x { &s[..] } else { panic!("harness") }).collect();
                b.create_vector_of_strings(&v).value()
            }
            _ => {
                let v: Vec<WIPOffset<Any>> = xs.iter().map(|x| WIPOffset::new(offs[&vptr(x)])).collect();
                if how == 0 {
                    b.create_vector(&v).value()
                } else {
                    b.start_vector::<WIPOffset<Any>>(v.len());
                    for x in v.iter().rev() {
                        b.push(*x);
                    }
                    b.end_vector::<WIPOffset<Any>>(v.len()).value()
                }
            }
        }
    }

    pub fn build(&self, b: &mut FlatBufferBuilder<'_>) -> Run {
        let mut r = Run { offs: HashMap::new(), log: vec![] };
        for i in 0..self.ops.len() {
            let o = self.step(b, i, &mut r.offs);
            r.log.push((self.ops[i].ty.clone(), self.ops[i].val.clone(), o));
        }
        r
    }
    pub fn finish(&self, b: &mut FlatBufferBuilder<'_>, offs: &HashMap<usize, u32>) {
        let o: WIPOffset<Any> = WIPOffset::new(offs[&(Arc::as_ptr(&self.root) as usize)]);
        match (&self.ident, self.size_prefix) {
            (None, false) if self.ops.len() % 2 == 0 => b.finish_minimal(o),
            (id, false) => b.finish(o, id.as_ref().map(|s| &s[..])),
            (id, true) => b.finish_size_prefixed(o, id.as_ref().map(|s| &s[..])),
        }
    }
    pub fn describe(&self) -> String {
        let mut s = format!("ident={:?} size_prefix={} types={{", self.ident, self.size_prefix);
        for (i, t) in self.env.tables.iter().enumerate() {
            s.push_str(&format!("T{}:[", i));
            for f in &t.fields {
                s.push_str(&format!("{}:{:?}={:?} ", f.slot, f.ty, f.default.map(|d| d.bits)));
            }
            s.push_str("] ");
        }
        s.push_str("} ops=[");
        for o in &self.ops {
            s.push_str(&format!("{:?}/{}{}:", o.ty, o.how, if o.junk { "/junk" } else { "" }));
            match &o.val {
                Val::Tab(t) => {
                    for (k, aware) in &o.order {
                        s.push_str(&format!(" f{}{}={}", k, if *aware { "?" } else { "" }, short(t.f[*k].as_ref().unwrap())));
                    }
                }
                v => s.push_str(&short(v)),
            }
            s.push_str("; ");
        }
        s.push(']');
        s
    }
}

pub fn short(v: &Val) -> String {
    match v {
        Val::S(s) => format!("{:?}:{:#x}", s.t, s.bits),
        Val::Str(s) => format!("{:?}", s),
        Val::Bytes(b) => format!("b{}", hex(b)),
        Val::Struct(b) => format!("s{}", hex(b)),
        Val::Tab(t) => format!("tab@{:x}", Arc::as_ptr(t) as usize & 0xffffff),
        Val::Un(k, _) => format!("un{}", k),
        Val::Vec(xs) => format!("[{}]", xs.iter().take(8).map(short).collect::<Vec<_>>().join(",")),
    }
}
