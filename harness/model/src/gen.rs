//! Random type environments for the runtime harness, and random values.
use crate::rng::Rng;
use crate::ty::*;
use std::sync::Arc;

fn rand_ty(r: &mut Rng, ntab: usize, depth: usize) -> Ty {
    match r.below(if depth < 3 { 16 } else { 11 }) {
        0..=5 => Ty::S(*r.pick(&ALL_ST)),
        6 => Ty::Str,
        7 => Ty::Bytes,
        8 => Ty::Struct(r.below(STRUCTS.len())),
        9 | 10 => Ty::Tab(r.below(ntab)),
        _ => {
            let t = rand_ty(r, ntab, depth + 1);
            Ty::vec(t)
        }
    }
}

/// Tables with scalars, strings, structs, vectors and tables; no unions.
pub fn rand_env(r: &mut Rng) -> Env {
    let n = r.range(1, if cfg!(miri) { 2 } else { 4 });
    let mut env = Env::default();
    for i in 0..n {
        let nf = match r.below(10) {
            0 => 0,
            1 if !cfg!(miri) => match r.below(400) {
                // tables of many kilobytes, whose vtables are as well
                0 => r.range(400, 4000),
                1..=9 => r.range(40, 400),
                _ => r.range(8, 40),
            },
            _ => r.range(1, if cfg!(miri) { 4 } else { 7 }),
        };
        let sparse = r.chance(1, 3);
        let mut id = if sparse { r.below(4) } else { 0 };
        let mut t = TableT { ns: vec![], name: format!("T{}", i), fields: vec![] };
        for k in 0..nf {
            let ty = match rand_ty(r, n, 0) {
                // their sizes must not add up to more than a vtable can express
                _ if nf > 400 => Ty::S(*r.pick(&ALL_ST)),
                Ty::Vec(_) | Ty::Tab(_) if nf > 40 && r.chance(3, 4) => Ty::S(*r.pick(&ALL_ST)),
                t => t,
            };
            let default = match &ty {
                Ty::S(st) if r.bool() => Some(rand_scalar(r, *st)),
                Ty::S(st) => Some(Sc::zero(*st)),
                _ => None,
            };
            t.fields.push(Field { name: format!("f{}", k), slot: (4 + 2 * id) as u16, ty, default, required: false });
            id += 1;
            if sparse {
                id += match r.below(40) {
                    0 => r.below(300),
                    1..=10 => r.below(4),
                    _ => 0,
                };
            }
        }
        if r.chance(1, 200) && !cfg!(miri) {
            // the very last slot a vtable can hold
            t.fields.push(Field { name: "last".into(), slot: 65532, ty: Ty::S(ST::U16), default: Some(Sc::zero(ST::U16)), required: false });
        }
        env.tables.push(t);
    }
    env
}

pub struct VGen<'a> {
    pub r: &'a mut Rng,
    pub env: &'a Env,
    pub budget: usize,
    /// allow the same object to be referred to more than once
    pub share: bool,
    pool: Vec<(Ty, Val, usize)>,
    /// probability (of 8) that an optional field is present
    pub fill: usize,
}

impl<'a> VGen<'a> {
    pub fn new(r: &'a mut Rng, env: &'a Env, budget: usize, share: bool) -> Self {
        let fill = match r.below(12) {
            0 => 0,
            1..=4 => 8,
            _ => r.range(1, 7),
        };
        VGen { r, env, budget, share, pool: vec![], fill }
    }
    pub fn scalar(&mut self, t: ST) -> Sc {
        rand_scalar(self.r, t)
    }
    pub fn table(&mut self, ty: usize, depth: usize) -> Arc<TVal> {
        let env = self.env;
        self.budget = self.budget.saturating_sub(1);
        let mut f = vec![];
        for fd in &env.tables[ty].fields {
            if !fd.required && !(self.r.below(8) < self.fill) {
                f.push(None);
                continue;
            }
            if fd.ty.is_ref() && !fd.required && (self.budget == 0 || depth > 8) {
                f.push(None);
                continue;
            }
            // sometimes exactly the default, sometimes just next to it
            if let Some(d) = fd.default {
                if self.r.chance(1, 3) {
                    f.push(Some(Val::S(d)));
                    continue;
                }
            }
            f.push(self.val(&fd.ty, depth + 1));
        }
        Arc::new(TVal { ty, f })
    }
    fn nodes(v: &Val) -> usize {
        match v {
            Val::Vec(xs) => 1 + xs.iter().map(Self::nodes).sum::<usize>(),
            Val::Tab(t) | Val::Un(_, t) => 1 + t.f.iter().flatten().map(Self::nodes).sum::<usize>(),
            _ => 1,
        }
    }
    /// None only when the budget ran out for a type that cannot be empty.
    pub fn val(&mut self, ty: &Ty, depth: usize) -> Option<Val> {
        if self.share && ty.is_ref() && self.r.chance(1, 5) {
            let c: Vec<_> = self.pool.iter().filter(|p| p.0 == *ty && p.2 <= 12).map(|p| p.1.clone()).collect();
            if !c.is_empty() {
                self.budget = self.budget.saturating_sub(3);
                return Some(self.r.pick(&c).clone());
            }
        }
        self.budget = self.budget.saturating_sub(1);
        let v = match ty {
            Ty::S(t) => Val::S(self.scalar(*t)),
            Ty::Str => Val::Str(Arc::new(rand_string(self.r))),
            Ty::Bytes => {
                let n = if self.r.chance(1, 500) && !cfg!(miri) { self.r.range(65_500, 70_000) } else { self.r.small(9, if cfg!(miri) { 12 } else { 200 }) };
                Val::Bytes(Arc::new((0..n).map(|_| self.r.u64() as u8).collect()))
            }
            Ty::Struct(k) => Val::Struct((0..STRUCTS[*k].0).map(|_| self.r.u64() as u8).collect()),
            Ty::Enum(e) => {
                let e = &self.env.enums[*e];
                let v = self.r.pick(&e.variants).2;
                Val::S(Sc::int(e.base, v))
            }
            Ty::Tab(t) => {
                if depth > 8 + 12 {
                    return None;
                }
                Val::Tab(self.table(*t, depth))
            }
            Ty::Union(u) => {
                if depth > 8 + 12 {
                    return None;
                }
                let k = self.r.below(self.env.unions[*u].variants.len());
                let t = self.env.unions[*u].variants[k].0;
                Val::Un(k, self.table(t, depth))
            }
            Ty::Vec(e) => {
                let max = if self.budget == 0 || depth > 8 {
                    0
                } else if e.is_ref() {
                    20.min(self.budget)
                } else {
                    if cfg!(miri) { 9 } else { 300 }
                };
                let n = if max > 0 && !cfg!(miri) && self.r.chance(1, 30) {
                    // sizes around the limits an implementation may have
                    let k = *self.r.pick(&[15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]);
                    let long = self.r.chance(1, 60);
                    match &**e {
                        Ty::Str | Ty::Bytes if long => *self.r.pick(&[1000, 1024, 1025, 4096, 5000]),
                        Ty::Str | Ty::Bytes => k.min(300),
                        e if e.is_ref() => k.min(40).min(self.budget.max(1) * 2),
                        _ if long => self.r.range(65_530, 65_545),
                        _ => k,
                    }
                } else {
                    self.r.small(6, max)
                };
                let mut xs = vec![];
                for _ in 0..n {
                    if let Some(v) = self.val(e, depth + 1) {
                        xs.push(v);
                    }
                }
                Val::Vec(Arc::new(xs))
            }
        };
        if self.share && ty.is_ref() && !matches!(ty, Ty::Union(_)) {
            let n = Self::nodes(&v);
            if n <= 12 {
                self.pool.push((ty.clone(), v.clone(), n));
            }
        }
        Some(v)
    }
}

/// A few random edits to a buffer, many of them to what may be offsets.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let interesting: [u32; 20] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x4000_0001,
    ];
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            b.push(r.u64() as u8);
        }
        let n = b.len();
        match r.below(12) {
            0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(n);
                b[i] = r.u64() as u8;
            }
            2 | 3 => {
                let i = r.below(n) & !3;
                let v = *r.pick(&interesting);
                if i + 4 <= n {
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            4 | 5 => {
                let i = r.below(n) & !1;
                let v = *r.pick(&interesting) as u16;
                if i + 2 <= n {
                    b[i..i + 2].copy_from_slice(&v.to_le_bytes());
                }
            }
            6 => b.truncate(r.below(n + 1)),
            7 => b.truncate(n - r.below(9.min(n + 1))),
            8 => {
                let i = r.below(n) & !3;
                if i + 4 <= n {
                    // an offset to just around the end
                    let v = (n as i64 - i as i64 + r.below(9) as i64 - 4) as u32;
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            9 => {
                let i = r.below(n) & !3;
                if i + 4 <= n {
                    let v = r.below(2 * n + 8) as u32;
                    let v = if r.bool() { v } else { v.wrapping_neg() };
                    b[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
            10 => {
                let (i, j) = (r.below(n), r.below(n));
                let k = r.below(16).min(n - i).min(n - j);
                let t = b[i..i + k].to_vec();
                b[j..j + k].copy_from_slice(&t);
            }
            _ => {
                let i = r.below(n);
                b[i] = b[i].wrapping_add(if r.bool() { 1 } else { 255 });
            }
        }
    }
}
