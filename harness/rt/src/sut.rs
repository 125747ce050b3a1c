//! Dynamic access to butte's statically typed reading API.
use butte::*;
use model::{Sc, ST, STRUCTS};

pub type R<T> = Result<T, Error>;

pub trait ToSc: Copy {
    const T: ST;
    fn sc(self) -> Sc;
    fn of(s: Sc) -> Self;
}
macro_rules! tosc {
    ($($t:ident $st:ident),*) => {$(
        impl ToSc for $t {
            const T: ST = ST::$st;
            fn sc(self) -> Sc { Sc::new(ST::$st, self as u64) }
            fn of(s: Sc) -> Self { s.bits as $t }
        }
    )*}
}
tosc!(u8 U8, i8 I8, u16 U16, i16 I16, u32 U32, i32 I32, u64 U64, i64 I64);
impl ToSc for bool {
    const T: ST = ST::Bool;
    fn sc(self) -> Sc {
        Sc::new(ST::Bool, self as u64)
    }
    fn of(s: Sc) -> Self {
        s.bits != 0
    }
}
impl ToSc for f32 {
    const T: ST = ST::F32;
    fn sc(self) -> Sc {
        Sc::f32(self)
    }
    fn of(s: Sc) -> Self {
        s.to_f32()
    }
}
impl ToSc for f64 {
    const T: ST = ST::F64;
    fn sc(self) -> Sc {
        Sc::f64(self)
    }
    fn of(s: Sc) -> Self {
        s.to_f64()
    }
}

/// with_st!(t, T => expr): runs expr with T bound to the Rust scalar type.
#[macro_export]
macro_rules! with_st {
    ($st:expr, $T:ident => $e:expr) => {
        match $st {
            model::ST::Bool => { type $T = bool; $e }
            model::ST::U8 => { type $T = u8; $e }
            model::ST::I8 => { type $T = i8; $e }
            model::ST::U16 => { type $T = u16; $e }
            model::ST::I16 => { type $T = i16; $e }
            model::ST::U32 => { type $T = u32; $e }
            model::ST::I32 => { type $T = i32; $e }
            model::ST::U64 => { type $T = u64; $e }
            model::ST::I64 => { type $T = i64; $e }
            model::ST::F32 => { type $T = f32; $e }
            model::ST::F64 => { type $T = f64; $e }
        }
    };
}

/// Follow that just reports where it was sent.
pub struct DynLoc;
impl<'a> Follow<'a> for DynLoc {
    type Inner = (&'a [u8], usize);
    fn follow(buf: &'a [u8], loc: usize) -> R<Self::Inner> {
        Ok((buf, loc))
    }
}

/// A table in borrowed bytes, as generated code reads nested tables.
pub struct DynTab;
impl<'a> Follow<'a> for DynTab {
    type Inner = Table<&'a [u8]>;
    fn follow(buf: &'a [u8], loc: usize) -> R<Self::Inner> {
        Ok(Table::new(buf, loc))
    }
}

macro_rules! structs {
    ($($name:ident $n:literal $a:literal;)*) => {$(
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(C, align($a))]
        pub struct $name(pub [u8; $n]);
        impl Push for $name {
            type Output = $name;
            fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                dst.copy_from_slice(&self.0);
            }
        }
        impl SafeSliceAccess for $name {}
        impl<'a> Follow<'a> for $name {
            type Inner = $name;
            fn follow(buf: &'a [u8], loc: usize) -> R<Self::Inner> {
                let end = loc.checked_add($n).ok_or(Error::OutOfBounds)?;
                let b = buf.get(loc..end).ok_or(Error::OutOfBounds)?;
                let mut x = [0u8; $n];
                x.copy_from_slice(b);
                Ok($name(x))
            }
        }
        impl $name {
            pub fn of(b: &[u8]) -> $name {
                let mut x = [0u8; $n];
                x.copy_from_slice(b);
                $name(x)
            }
        }
    )*}
}
structs! { St0 3 1; St1 6 2; St2 12 4; St3 16 8; St4 32 16; }
const _: () = assert!(STRUCTS.len() == 5);

/// with_struct!(k, T => expr)
#[macro_export]
macro_rules! with_struct {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = $crate::sut::St0; $e }
            1 => { type $T = $crate::sut::St1; $e }
            2 => { type $T = $crate::sut::St2; $e }
            3 => { type $T = $crate::sut::St3; $e }
            4 => { type $T = $crate::sut::St4; $e }
            _ => panic!("harness: struct kind"),
        }
    };
}

/// A copy of some bytes at a chosen distance from a 16-byte boundary.
pub struct At {
    store: Vec<u128>,
    off: usize,
    len: usize,
}
impl At {
    pub fn new(b: &[u8], off: usize) -> At {
        let store = vec![0u128; (b.len() + off) / 16 + 1];
        let mut a = At { store, off, len: b.len() };
        let p = a.store.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len()) };
        a
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        let p = self.store.as_mut_ptr() as *mut u8;
        unsafe { std::slice::from_raw_parts_mut(p.add(self.off), self.len) }
    }
    pub fn get(&self) -> &[u8] {
        let p = self.store.as_ptr() as *const u8;
        unsafe { std::slice::from_raw_parts(p.add(self.off), self.len) }
    }
}

/// How far the workloads let an iterator skip: without limit when skipping
/// takes no time, as it does now, but not so far that they would not finish
/// if it came to be done step by step, which is as correct.
pub fn reach(back: bool) -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static R: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
    if cfg!(miri) {
        return 2000;
    }
    let r = &R[back as usize];
    let x = r.load(Ordering::Relaxed);
    if x != 0 {
        return x;
    }
    const N: u32 = 1 << 23;
    let buf = std::hint::black_box(N.to_le_bytes());
    let mut best = u128::MAX;
    for _ in 0..4 {
        let v: butte::Vector<u64> = butte::Vector::new(&buf, 0);
        let t = std::time::Instant::now();
        let mut it = v.iter();
        let g = if back { it.nth_back(N as usize - 1) } else { it.nth(N as usize - 1) };
        std::hint::black_box(g.map(|x| x.is_ok()));
        best = best.min(t.elapsed().as_micros());
    }
    let x = if best < 1000 { u64::MAX } else { 4096 };
    r.store(x, Ordering::Relaxed);
    x
}
