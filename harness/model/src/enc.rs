//! An independent writer that lays values out front to back in a random
//! conforming way, unlike any particular implementation.
use crate::rng::Rng;
use crate::ty::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct EncOpts {
    pub size_prefix: bool,
    pub ident: Option<[u8; 4]>,
    /// store explicitly what the value says, never drop stored defaults
    pub keep_defaults: bool,
    /// extra fields past the known ones
    pub unknown_fields: bool,
}

struct E<'a> {
    r: &'a mut Rng,
    env: &'a Env,
    b: Vec<u8>,
    pend: Vec<(usize, Ty, Val)>,
    pend_vt: Vec<(usize, Vec<u8>)>,
    vts: HashMap<Vec<u8>, Vec<usize>>,
    opts: EncOpts,
    style: usize,
}

fn ptr(v: &Val) -> usize {
    match v {
        Val::Str(a) => Arc::as_ptr(a) as usize,
        Val::Bytes(a) => Arc::as_ptr(a) as usize,
        Val::Tab(a) => Arc::as_ptr(a) as usize,
        Val::Vec(a) => Arc::as_ptr(a) as usize,
        _ => 0,
    }
}

impl<'a> E<'a> {
    fn junk(&mut self, n: usize) {
        for _ in 0..n {
            let x = match self.style {
                0 => 0,
                1 => 0xff,
                _ => self.r.u64() as u8,
            };
            self.b.push(x);
        }
    }
    /// Pads so that (position + bias) is a multiple of `al`.
    fn pad(&mut self, al: usize, bias: usize) {
        if self.style != 0 && self.r.chance(1, 4) {
            let n = self.r.below(9);
            self.junk(n);
        }
        while (self.b.len() + bias) % al != 0 {
            self.junk(1);
        }
    }
    fn put(&mut self, x: &[u8]) {
        self.b.extend_from_slice(x);
    }
    fn patch(&mut self, at: usize, target: usize) {
        let o = (target - at) as u32;
        self.b[at..at + 4].copy_from_slice(&o.to_le_bytes());
    }
    fn place(&mut self, ty: &Ty, v: &Val) -> usize {
        match (ty, v) {
            (Ty::Str, Val::Str(s)) => self.string(s.as_bytes()),
            (Ty::Bytes, Val::Bytes(s)) => self.string(s),
            (Ty::Vec(e), Val::Vec(xs)) => {
                let al = e.inline_align(self.env).max(4);
                self.pad(al, 4);
                // the length itself must be 4-aligned, which (pos + 4) % al == 0 implies
                let at = self.b.len();
                self.put(&(xs.len() as u32).to_le_bytes());
                for x in xs.iter() {
                    self.inline(e, x);
                }
                at
            }
            (Ty::Tab(_), Val::Tab(t)) => self.table(t),
            _ => panic!("harness: place {:?}", ty),
        }
    }
    fn string(&mut self, s: &[u8]) -> usize {
        self.pad(4, 0);
        let at = self.b.len();
        self.put(&(s.len() as u32).to_le_bytes());
        self.put(s);
        self.put(&[0]);
        at
    }
    fn inline(&mut self, ty: &Ty, v: &Val) {
        match v {
            Val::S(s) => self.put(&s.bytes()),
            Val::Struct(b) => self.put(&b.clone()),
            _ => {
                let at = self.b.len();
                self.put(&[0; 4]);
                self.pend.push((at, ty.clone(), v.clone()));
            }
        }
    }
    fn table(&mut self, t: &Arc<TVal>) -> usize {
        let env = self.env;
        let tt = &env.tables[t.ty];
        // (slot, type, value)
        let mut items: Vec<(usize, Ty, Val)> = vec![];
        for (f, v) in tt.fields.iter().zip(&t.f) {
            let v = match v {
                Some(v) => v,
                None => continue,
            };
            match v {
                Val::Un(k, tv) => {
                    let u = match &f.ty {
                        Ty::Union(u) => &env.unions[*u],
                        _ => panic!("harness: union"),
                    };
                    items.push((f.slot as usize, Ty::S(ST::U8), Val::S(Sc::new(ST::U8, u64::from(u.variants[*k].2)))));
                    items.push((f.slot as usize + 2, Ty::Tab(u.variants[*k].0), Val::Tab(tv.clone())));
                }
                Val::S(s) => {
                    if !self.opts.keep_defaults && !f.required && Some(*s) == f.default && self.r.chance(2, 3) {
                        continue;
                    }
                    items.push((f.slot as usize, f.ty.clone(), v.clone()));
                }
                _ => items.push((f.slot as usize, f.ty.clone(), v.clone())),
            }
        }
        let mut top = tt.fields.iter().map(|f| f.slot as usize + if let Ty::Union(_) = f.ty { 2 } else { 0 }).max().unwrap_or(2);
        if self.opts.unknown_fields && top < 60000 && self.r.chance(1, 3) {
            for _ in 0..self.r.range(1, 3) {
                top += 2 * self.r.range(1, 3);
                let st = *self.r.pick(&ALL_ST);
                let s = rand_scalar(self.r, st);
                items.push((top, Ty::S(st), Val::S(s)));
            }
        }
        self.r.shuffle(&mut items);
        let al = items.iter().map(|i| i.1.inline_align(env)).max().unwrap_or(1).max(4);
        let mut pos = 4;
        let mut vt = vec![0u8; items.iter().map(|i| i.0 + 2).max().unwrap_or(4).max(4)];
        if self.r.chance(1, 4) && vt.len() < 60000 {
            // trailing empty entries, as a writer with a longer schema leaves
            let extra = 2 * self.r.range(1, 4);
            vt.resize(vt.len() + extra, 0);
        }
        let mut lay = vec![];
        for (slot, ty, v) in items {
            let a = ty.inline_align(env);
            if self.style != 0 && self.r.chance(1, 6) {
                pos += self.r.below(6);
            }
            while pos % a != 0 {
                pos += 1;
            }
            vt[slot..slot + 2].copy_from_slice(&(pos as u16).to_le_bytes());
            let sz = ty.inline_size(env);
            lay.push((pos, ty, v));
            pos += sz;
        }
        if self.r.chance(1, 5) {
            pos += self.r.below(5);
        }
        assert!(pos < 65536, "harness: table too large");
        let n = vt.len() as u16;
        vt[0..2].copy_from_slice(&n.to_le_bytes());
        vt[2..4].copy_from_slice(&(pos as u16).to_le_bytes());
        let known = self.vts.get(&vt).cloned().unwrap_or_default();
        let mut vt_at = None;
        let mut defer = false;
        if !known.is_empty() && self.r.chance(2, 3) {
            vt_at = Some(*self.r.pick(&known));
        } else if self.r.chance(1, 3) {
            defer = true;
        } else {
            self.pad(2, 0);
            vt_at = Some(self.b.len());
            self.put(&vt.clone());
            self.vts.entry(vt.clone()).or_default().push(vt_at.unwrap());
        }
        self.pad(al, 0);
        let at = self.b.len();
        self.put(&[0; 4]);
        for (p, ty, v) in lay {
            let gap = at + p - self.b.len();
            self.junk(gap);
            self.inline(&ty, &v);
        }
        let gap = at + pos - self.b.len();
        self.junk(gap);
        if let Some(v) = vt_at {
            let o = (at as i64 - v as i64) as i32;
            self.b[at..at + 4].copy_from_slice(&o.to_le_bytes());
        }
        if defer {
            self.pend_vt.push((at, vt));
        }
        at
    }
    fn place_vt(&mut self) {
        let i = self.r.below(self.pend_vt.len());
        let (at, vt) = self.pend_vt.swap_remove(i);
        self.pad(2, 0);
        let v = self.b.len();
        self.put(&vt.clone());
        let mut users = vec![at];
        // identical deferred vtables may be shared
        let mut k = 0;
        while k < self.pend_vt.len() {
            if self.pend_vt[k].1 == vt && self.r.chance(2, 3) {
                users.push(self.pend_vt.swap_remove(k).0);
            } else {
                k += 1;
            }
        }
        for at in users {
            let o = (at as i64 - v as i64) as i32;
            self.b[at..at + 4].copy_from_slice(&o.to_le_bytes());
        }
        self.vts.entry(vt).or_default().push(v);
    }
}

/// Encodes `root`; every `Some` field is stored (scalars exactly equal to
/// their default may be left out unless `keep_defaults`).
pub fn encode(r: &mut Rng, env: &Env, root: &Arc<TVal>, opts: &EncOpts) -> Vec<u8> {
    let style = r.below(4);
    let mut e = E { r, env, b: vec![], pend: vec![], pend_vt: vec![], vts: HashMap::new(), opts: opts.clone(), style };
    if opts.size_prefix {
        e.put(&[0; 4]);
    }
    let at = e.b.len();
    e.put(&[0; 4]);
    if let Some(id) = &opts.ident {
        e.put(id);
    }
    e.pend.push((at, Ty::Tab(root.ty), Val::Tab(root.clone())));
    while !e.pend.is_empty() || !e.pend_vt.is_empty() {
        if !e.pend_vt.is_empty() && (e.pend.is_empty() || e.r.chance(1, 4)) {
            e.place_vt();
            continue;
        }
        let i = e.r.below(e.pend.len());
        let (at, ty, v) = e.pend.swap_remove(i);
        let loc = e.place(&ty, &v);
        e.patch(at, loc);
        let p = ptr(&v);
        let mut k = 0;
        while k < e.pend.len() {
            if ptr(&e.pend[k].2) == p && e.pend[k].1 == ty && e.pend[k].0 < loc && e.r.chance(2, 3) {
                let (a2, _, _) = e.pend.swap_remove(k);
                e.patch(a2, loc);
            } else {
                k += 1;
            }
        }
    }
    if e.r.chance(1, 3) {
        let n = e.r.below(9);
        e.junk(n);
    }
    if opts.size_prefix {
        let n = (e.b.len() - 4) as u32;
        e.b[0..4].copy_from_slice(&n.to_le_bytes());
    }
    e.b
}
