//! What the generated code of a schema is observed through, and the oracles
//! that judge the observations. Per schema, a small generated adapter maps
//! the generated types onto these traits.
pub use butte;
pub use model;
pub mod judge;
pub mod run;
use butte::{Error, Follow, Vector};
use model::*;
use std::collections::HashMap;

/// What an accessor answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Err(Error),
    Absent,
    S(Sc),
    /// an enum: index of the variant
    En(usize),
    Str(Vec<u8>),
    Tab(Vec<Obs>),
    /// a union field: its type accessor, its value accessor
    Un(Box<Obs>, Box<Obs>),
    /// a union value: variant matched, what get_type says, the table
    Var(usize, Box<Obs>, Box<Obs>),
    Vec {
        len: Result<usize, Error>,
        empty: Result<bool, Error>,
        /// elements probed by index
        items: Vec<(usize, Obs)>,
        /// the index just past the end was refused
        past: bool,
        /// what iterating yielded, for short vectors
        iter: Option<Vec<Obs>>,
    },
    /// not looked at any further
    Cut,
}

pub struct Cx {
    pub budget: usize,
    pub depth: usize,
    pub max_depth: usize,
}

impl Cx {
    pub fn new(budget: usize) -> Cx {
        Cx { budget, depth: 0, max_depth: 40 }
    }
    fn enter(&mut self) -> bool {
        if self.budget == 0 || self.depth >= self.max_depth {
            return false;
        }
        self.budget -= 1;
        true
    }
    pub fn tab(&mut self, f: impl FnOnce(&mut Cx, &mut Vec<Obs>)) -> Obs {
        if !self.enter() {
            return Obs::Cut;
        }
        self.depth += 1;
        let mut o = vec![];
        f(self, &mut o);
        self.depth -= 1;
        Obs::Tab(o)
    }
}

pub trait Observe {
    fn obs(&self, cx: &mut Cx) -> Obs;
}
impl<T: Observe> Observe for Result<T, Error> {
    fn obs(&self, cx: &mut Cx) -> Obs {
        match self {
            Ok(x) => x.obs(cx),
            Err(e) => Obs::Err(*e),
        }
    }
}
impl<T: Observe> Observe for Option<T> {
    fn obs(&self, cx: &mut Cx) -> Obs {
        match self {
            Some(x) => x.obs(cx),
            None => Obs::Absent,
        }
    }
}
impl Observe for &str {
    fn obs(&self, _: &mut Cx) -> Obs {
        Obs::Str(self.as_bytes().to_vec())
    }
}
impl<T> Observe for butte::WIPOffset<T> {
    fn obs(&self, _: &mut Cx) -> Obs {
        Obs::Cut
    }
}
impl<'a, T: Follow<'a> + 'a> Observe for Vector<'a, T>
where
    T::Inner: Observe,
{
    fn obs(&self, cx: &mut Cx) -> Obs {
        if !cx.enter() {
            return Obs::Cut;
        }
        cx.depth += 1;
        let len = self.len();
        let mut items = vec![];
        let mut past = true;
        let mut iter = None;
        if let Ok(n) = len {
            let mut idx: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 2, 7, n / 3, n / 2, n - 2, n - 1] };
            idx.dedup();
            for i in idx {
                items.push((i, self.get(i).obs(cx)));
            }
            past = self.get(n).is_err() && self.get(usize::MAX).is_err();
            if n <= 6 && cx.budget > 20 {
                iter = Some(self.iter().map(|x| x.obs(cx)).collect());
            }
        }
        cx.depth -= 1;
        Obs::Vec { len, empty: self.is_empty(), items, past, iter }
    }
}

pub trait Scalar: Sized {
    fn of(s: Sc) -> Self;
    fn sc(&self) -> Sc;
}
macro_rules! scalar {
    ($($t:ident $st:ident),*) => {$(
        impl Scalar for $t {
            fn of(s: Sc) -> $t {
                assert_eq!(s.t, ST::$st, "harness: scalar type");
                s.bits as $t
            }
            fn sc(&self) -> Sc {
                Sc::new(ST::$st, *self as u64)
            }
        }
        impl Observe for $t {
            fn obs(&self, _: &mut Cx) -> Obs {
                Obs::S(self.sc())
            }
        }
    )*};
}
scalar!(u8 U8, i8 I8, u16 U16, i16 I16, u32 U32, i32 I32, u64 U64, i64 I64);
impl Scalar for bool {
    fn of(s: Sc) -> bool {
        s.bits != 0
    }
    fn sc(&self) -> Sc {
        Sc::new(ST::Bool, *self as u64)
    }
}
impl Scalar for f32 {
    fn of(s: Sc) -> f32 {
        assert_eq!(s.t, ST::F32, "harness: scalar type");
        s.to_f32()
    }
    fn sc(&self) -> Sc {
        Sc::f32(*self)
    }
}
impl Scalar for f64 {
    fn of(s: Sc) -> f64 {
        assert_eq!(s.t, ST::F64, "harness: scalar type");
        s.to_f64()
    }
    fn sc(&self) -> Sc {
        Sc::f64(*self)
    }
}
macro_rules! obs_float {
    ($($t:ident),*) => {$(
        impl Observe for $t {
            fn obs(&self, _: &mut Cx) -> Obs {
                Obs::S(self.sc())
            }
        }
    )*};
}
obs_float!(bool, f32, f64);

// ---- used by the adapters when building

pub fn sc<T: Scalar>(v: &Val) -> T {
    match v {
        Val::S(s) => T::of(*s),
        _ => panic!("harness: scalar value expected"),
    }
}
pub fn bits<T: Scalar>(t: ST, b: u64) -> T {
    T::of(Sc { t, bits: b })
}
pub fn int(v: &Val) -> i128 {
    match v {
        Val::S(s) => s.as_int(),
        _ => panic!("harness: enum value expected"),
    }
}
pub fn st(v: &Val) -> &str {
    match v {
        Val::Str(s) => s,
        _ => panic!("harness: string expected"),
    }
}
pub fn vc(v: &Val) -> &[Val] {
    match v {
        Val::Vec(s) => s,
        _ => panic!("harness: vector expected"),
    }
}
pub fn tb(v: &Val) -> &TVal {
    match v {
        Val::Tab(s) => s,
        _ => panic!("harness: table expected"),
    }
}
pub fn un(v: &Val) -> (usize, &TVal) {
    match v {
        Val::Un(k, s) => (*k, s),
        _ => panic!("harness: union expected"),
    }
}

/// Objects already written, by identity of the value.
#[derive(Default)]
pub struct BCx {
    pub memo: HashMap<usize, u32>,
    pub share: bool,
    /// use the argument defaults of the generated code for unset scalars
    pub arg_defaults: bool,
    /// use the more special creation functions of the builder where they fit
    pub alt: bool,
}
impl BCx {
    pub fn get(&self, k: usize) -> Option<u32> {
        if self.share {
            self.memo.get(&k).copied()
        } else {
            None
        }
    }
    pub fn put(&mut self, k: usize, v: u32) {
        if self.share {
            self.memo.insert(k, v);
        }
    }
}
pub fn key(v: &Val) -> usize {
    match v {
        Val::Str(a) => std::sync::Arc::as_ptr(a) as usize,
        Val::Vec(a) => std::sync::Arc::as_ptr(a) as usize,
        Val::Tab(a) => std::sync::Arc::as_ptr(a) as usize,
        _ => panic!("harness: key"),
    }
}

pub struct EnumFns {
    /// try_from of a value of the base type
    pub from: fn(Sc) -> Result<usize, Error>,
    /// variant index -> base value, by From and by cast
    pub to: fn(usize) -> Sc,
    pub cast: fn(usize) -> Sc,
    pub name: fn(usize) -> &'static str,
    pub default: fn() -> usize,
}

pub type Build = for<'f> fn(&mut butte::FlatBufferBuilder<'f>, &TVal, &mut BCx) -> u32;
pub type Read = fn(&[u8], usize, &mut Cx) -> Obs;
/// Ways to open a buffer a Read function knows.
pub const HOWS: usize = 6;

pub struct Sfn {
    /// number of the schema and which of its versions
    pub idx: u64,
    pub ver: usize,
    pub build: &'static [Build],
    /// the generated builder, finished without adding a field
    pub empty: &'static [for<'f> fn(&mut butte::FlatBufferBuilder<'f>) -> u32],
    pub read: &'static [Read],
    /// the defaults of the argument structs, if they have defaults
    pub args: &'static [fn() -> Option<Vec<Obs>>],
    pub enums: &'static [EnumFns],
    /// the type enums of the unions
    pub utypes: &'static [EnumFns],
}

/// The index of an enum's variant.
pub fn en<T: Observe>(e: &T) -> usize {
    match e.obs(&mut Cx::new(1)) {
        Obs::En(k) => k,
        _ => panic!("harness: enum expected"),
    }
}
pub fn mk_str<'f>(fbb: &mut butte::FlatBufferBuilder<'f>, v: &Val, m: &mut BCx) -> butte::WIPOffset<&'f str> {
    match m.get(key(v)) {
        Some(o) => butte::WIPOffset::new(o),
        None => {
            let o = fbb.create_string(st(v));
            m.put(key(v), o.value());
            o
        }
    }
}
