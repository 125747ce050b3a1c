//! Two decoders of the binary format: `Len` says what arbitrary bytes
//! designate (lenient, for readers), `Strict` judges a buffer someone claims
//! to be well formed against the values it should contain (for writers).
use crate::ty::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

/// What a reader may answer.
#[derive(Clone, PartialEq, Debug)]
pub enum Exp<T> {
    /// exactly this value
    Ok(T),
    /// an error
    Err,
    /// this value or an error
    OkOrErr(T),
    /// malformed in a way the format does not settle: any answer, no panic
    Any,
}

impl<T> Exp<T> {
    pub fn and_then<U>(self, f: impl FnOnce(T) -> Exp<U>) -> Exp<U> {
        match self {
            Exp::Ok(t) => f(t),
            Exp::Err => Exp::Err,
            Exp::OkOrErr(t) => match f(t) {
                Exp::Ok(u) | Exp::OkOrErr(u) => Exp::OkOrErr(u),
                Exp::Err => Exp::Err,
                Exp::Any => Exp::Any,
            },
            Exp::Any => Exp::Any,
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Exp<U> {
        self.and_then(|t| Exp::Ok(f(t)))
    }
    pub fn value(self) -> Option<T> {
        match self {
            Exp::Ok(t) | Exp::OkOrErr(t) => Some(t),
            _ => None,
        }
    }
}

impl<T: PartialEq + std::fmt::Debug> Exp<T> {
    /// Judge an answer; the error text says what was expected.
    pub fn judge<E: std::fmt::Debug>(&self, got: &Result<T, E>) -> Result<(), String> {
        let ok = match (self, got) {
            (Exp::Any, _) => true,
            (Exp::Ok(a), Ok(b)) => a == b,
            (Exp::OkOrErr(a), Ok(b)) => a == b,
            (Exp::OkOrErr(_), Err(_)) => true,
            (Exp::Err, Err(_)) => true,
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("expected {:?}, reader answered {:?}", self, got))
        }
    }
}

/// Lenient view of a buffer. Positions are i128, so nothing can wrap.
#[derive(Clone, Copy)]
pub struct Len<'a> {
    pub b: &'a [u8],
}

impl<'a> Len<'a> {
    pub fn bytes(&self, loc: i128, n: i128) -> Option<&'a [u8]> {
        if loc < 0 || n < 0 || loc + n > self.b.len() as i128 {
            return None;
        }
        Some(&self.b[loc as usize..(loc + n) as usize])
    }
    pub fn u16(&self, loc: i128) -> Exp<u16> {
        match self.bytes(loc, 2) {
            Some(x) => Exp::Ok(u16::from(x[0]) | u16::from(x[1]) << 8),
            None => Exp::Err,
        }
    }
    pub fn u32(&self, loc: i128) -> Exp<u32> {
        match self.bytes(loc, 4) {
            Some(x) => Exp::Ok(u32::from_le_bytes([x[0], x[1], x[2], x[3]])),
            None => Exp::Err,
        }
    }
    pub fn scalar(&self, t: ST, loc: i128) -> Exp<Sc> {
        match self.bytes(loc, t.size() as i128) {
            None => Exp::Err,
            Some(x) if t == ST::Bool && x[0] > 1 => Exp::OkOrErr(Sc::new(t, 1)),
            Some(x) => Exp::Ok(Sc::from_bytes(t, x)),
        }
    }
    pub fn raw(&self, loc: i128, n: usize) -> Exp<Vec<u8>> {
        match self.bytes(loc, n as i128) {
            None => Exp::Err,
            Some(x) => Exp::Ok(x.to_vec()),
        }
    }
    /// Where an unsigned forward offset stored at `loc` leads. A target
    /// outside the buffer may already be refused here.
    pub fn uoff(&self, loc: i128) -> Exp<i128> {
        self.u32(loc).and_then(|o| {
            let t = loc + i128::from(o);
            if t >= self.b.len() as i128 {
                Exp::OkOrErr(t.min(usize::MAX as i128))
            } else {
                Exp::Ok(t)
            }
        })
    }
    pub fn root(&self, size_prefixed: bool) -> Exp<i128> {
        self.uoff(if size_prefixed { 4 } else { 0 })
    }
    pub fn vtable(&self, tab: i128) -> Exp<i128> {
        self.u32(tab).and_then(|o| {
            let t = tab - i128::from(o as i32);
            if t < 0 {
                Exp::Err
            } else if t >= self.b.len() as i128 {
                Exp::OkOrErr(t.min(usize::MAX as i128))
            } else {
                Exp::Ok(t)
            }
        })
    }
    pub fn vt_entry(&self, vt: i128, slot: u16) -> Exp<Option<u16>> {
        self.u16(vt).and_then(|n| {
            if slot >= n {
                Exp::Ok(None)
            } else if slot < 4 || u32::from(slot) + 2 > u32::from(n) {
                Exp::Any
            } else {
                self.u16(vt + i128::from(slot)).map(Some)
            }
        })
    }
    /// Position of a field's inline data, None when absent.
    pub fn field(&self, tab: i128, slot: u16) -> Exp<Option<i128>> {
        // The position is what the vtable entry says even when the table's
        // own bytes end earlier; reading there is what is judged.
        self.vtable(tab).and_then(|vt| self.vt_entry(vt, slot)).map(|e| match e {
            None | Some(0) => None,
            Some(o) => Some(tab + i128::from(o)),
        })
    }
    pub fn opt<T>(&self, p: Exp<Option<i128>>, f: impl FnOnce(i128) -> Exp<T>) -> Exp<Option<T>> {
        p.and_then(|p| match p {
            None => Exp::Ok(None),
            Some(p) => f(p).map(Some),
        })
    }
    pub fn string(&self, loc: i128) -> Exp<Vec<u8>> {
        self.u32(loc).and_then(|n| match self.bytes(loc + 4, i128::from(n) + 1) {
            None => Exp::Err,
            Some(x) => {
                let (s, z) = x.split_at(n as usize);
                if z[0] != 0 || std::str::from_utf8(s).is_err() {
                    Exp::Err
                } else {
                    Exp::Ok(s.to_vec())
                }
            }
        })
    }
    /// A direct slice of `t`s; `addr` is the address of the buffer's byte 0.
    pub fn slice(&self, t: ST, loc: i128, addr: usize) -> Exp<Vec<Sc>> {
        self.u32(loc).and_then(|n| {
            match self.bytes(loc + 4, i128::from(n) * t.size() as i128) {
                None => Exp::Err,
                Some(x) => {
                    if t == ST::Bool && x.iter().any(|b| *b > 1) {
                        return Exp::Err;
                    }
                    let v = x.chunks(t.size()).map(|c| Sc::from_bytes(t, c)).collect();
                    // what a reference needs, which may be less than the format asks for
                    let al = if t.size() == 8 { std::mem::align_of::<u64>() } else { t.size() };
                    let mis = (addr as i128 + loc + 4) % al as i128 != 0;
                    if mis && n == 0 {
                        Exp::OkOrErr(v)
                    } else if mis {
                        Exp::Err
                    } else {
                        Exp::Ok(v)
                    }
                }
            }
        })
    }
    pub fn elem(&self, vec: i128, idx: u64, size: usize) -> Exp<i128> {
        self.u32(vec).and_then(|n| {
            if idx >= u64::from(n) {
                Exp::Err
            } else {
                Exp::Ok(vec + 4 + i128::from(idx) * size as i128)
            }
        })
    }
}

type R<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Header,
    VTable,
    Table,
    Vector,
    Str,
}

/// Strict judge of a finished buffer.
pub struct Strict<'a> {
    pub b: &'a [u8],
    pub env: &'a Env,
    /// start -> (end, kind)
    ext: BTreeMap<usize, (usize, Kind)>,
    leaf: Vec<bool>,
    memo: HashSet<(usize, usize)>,
    /// vtable position -> number of tables using it
    pub vts: BTreeMap<usize, usize>,
    pub tables: usize,
    pub objects: usize,
    seen_tables: HashSet<usize>,
    /// require vtables without entries past the last stored field
    pub minimal: bool,
    /// require zero bytes outside objects
    pub zero_gaps: bool,
    /// a union that is not set may still store its type, as 0, and a scalar
    /// equal to its default may be left out
    pub lax: bool,
    /// tables at the top that a strict judge must see as distinct objects
    pub keep: Vec<Arc<TVal>>,
}

impl<'a> Strict<'a> {
    pub fn new(b: &'a [u8], env: &'a Env) -> Self {
        Strict {
            b,
            env,
            ext: BTreeMap::new(),
            leaf: vec![false; b.len()],
            memo: HashSet::new(),
            vts: BTreeMap::new(),
            tables: 0,
            objects: 0,
            seen_tables: HashSet::new(),
            minimal: true,
            zero_gaps: true,
            lax: false,
            keep: vec![],
        }
    }
    fn get(&self, at: usize, n: usize, what: &str) -> R<&'a [u8]> {
        self.b
            .get(at..at.checked_add(n).ok_or("overflow")?)
            .ok_or_else(|| format!("{} at {}..+{} outside the buffer of {} bytes", what, at, n, self.b.len()))
    }
    fn u16(&self, at: usize) -> R<usize> {
        let x = self.get(at, 2, "u16")?;
        Ok(x[0] as usize | (x[1] as usize) << 8)
    }
    fn u32(&self, at: usize, what: &str) -> R<usize> {
        if at % 4 != 0 {
            return Err(format!("{} at {} not 4-aligned", what, at));
        }
        let x = self.get(at, 4, what)?;
        Ok(u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize)
    }
    fn extent(&mut self, start: usize, end: usize, kind: Kind) -> R<()> {
        if end > self.b.len() || start > end {
            return Err(format!("{:?} {}..{} outside the buffer of {} bytes", kind, start, end, self.b.len()));
        }
        match self.ext.get(&start) {
            Some(x) if *x == (end, kind) => {}
            Some(x) => return Err(format!("{:?} {}..{} coincides with {:?}", kind, start, end, x)),
            None => {
                self.ext.insert(start, (end, kind));
                self.objects += 1;
            }
        }
        Ok(())
    }
    fn mark(&mut self, start: usize, end: usize) {
        for x in &mut self.leaf[start..end] {
            *x = true;
        }
    }
    /// Parses prefix, root offset and identifier; returns the root position.
    pub fn header(&mut self, size_prefixed: bool, ident: Option<&[u8]>) -> R<usize> {
        let mut at = 0;
        if size_prefixed {
            let n = self.u32(0, "size prefix")?;
            if n != self.b.len() - 4 {
                return Err(format!("size prefix {} but {} bytes follow it", n, self.b.len() - 4));
            }
            at = 4;
        }
        let root = at + self.u32(at, "root offset")?;
        let mut end = at + 4;
        if let Some(id) = ident {
            let got = self.get(end, 4, "identifier")?;
            if got != id {
                return Err(format!("identifier bytes {:?}, expected {:?}", got, id));
            }
            end += 4;
        }
        self.extent(0, end, Kind::Header)?;
        self.mark(0, end);
        Ok(root)
    }
    /// Judges the object at `loc` to be `v` of type `ty`.
    pub fn object(&mut self, loc: usize, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Str, Val::Str(s)) => self.string(loc, s.as_bytes(), Arc::as_ptr(s) as usize),
            (Ty::Bytes, Val::Bytes(s)) => self.string(loc, s, Arc::as_ptr(s) as usize),
            (Ty::Tab(_), Val::Tab(t)) => self.table(loc, t),
            (Ty::Vec(e), Val::Vec(xs)) => self.vector(loc, e, xs),
            _ => panic!("harness: object {:?} {:?}", ty, v),
        }
    }
    fn string(&mut self, loc: usize, s: &[u8], key: usize) -> R<()> {
        if !self.memo.insert((loc, key)) {
            return Ok(());
        }
        let n = self.u32(loc, "string length")?;
        if n != s.len() {
            return Err(format!("string at {} has length {}, expected {}", loc, n, s.len()));
        }
        let x = self.get(loc + 4, n + 1, "string")?;
        if &x[..n] != s {
            return Err(format!("string at {} differs: {:?} expected {:?}", loc, &x[..n], s));
        }
        if x[n] != 0 {
            return Err(format!("string at {} is not zero-terminated", loc));
        }
        self.extent(loc, loc + 4 + n + 1, Kind::Str)?;
        self.mark(loc, loc + 4 + n + 1);
        Ok(())
    }
    fn vector(&mut self, loc: usize, e: &Ty, xs: &Arc<Vec<Val>>) -> R<()> {
        if !self.memo.insert((loc, Arc::as_ptr(xs) as usize)) {
            return Ok(());
        }
        let n = self.u32(loc, "vector length")?;
        if n != xs.len() {
            return Err(format!("vector at {} has length {}, expected {}", loc, n, xs.len()));
        }
        let sz = e.inline_size(self.env);
        let al = e.inline_align(self.env);
        let start = loc + 4;
        self.get(start, n * sz, "vector")?;
        self.extent(loc, start + n * sz, Kind::Vector)?;
        self.mark(loc, start + n * sz);
        if n > 0 && start % al != 0 {
            return Err(format!("vector elements at {} not {}-aligned", start, al));
        }
        for (i, x) in xs.iter().enumerate() {
            self.inline(start + i * sz, e, x)
                .map_err(|m| format!("element {} of vector at {}: {}", i, loc, m))?;
        }
        Ok(())
    }
    /// A value stored inline in a table or vector, offsets followed.
    fn inline(&mut self, at: usize, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::S(_), Val::S(s)) | (Ty::Enum(_), Val::S(s)) => {
                if at % s.t.size() != 0 {
                    return Err(format!("{:?} at {} misaligned", s.t, at));
                }
                let x = self.get(at, s.t.size(), "scalar")?;
                if x != &s.bytes()[..] {
                    return Err(format!("scalar at {}: bytes {:02x?}, expected {:?} = {:02x?}", at, x, s, s.bytes()));
                }
                Ok(())
            }
            (Ty::Struct(k), Val::Struct(b)) => {
                if at % STRUCTS[*k].1 != 0 {
                    return Err(format!("struct at {} not {}-aligned", at, STRUCTS[*k].1));
                }
                let x = self.get(at, b.len(), "struct")?;
                if x != &b[..] {
                    return Err(format!("struct at {}: bytes {:02x?}, expected {:02x?}", at, x, b));
                }
                Ok(())
            }
            _ => {
                let o = self.u32(at, "offset")?;
                if o == 0 {
                    return Err(format!("null offset at {}", at));
                }
                self.object(at + o, ty, v)
            }
        }
    }
    pub fn table(&mut self, loc: usize, t: &Arc<TVal>) -> R<()> {
        if !self.memo.insert((loc, Arc::as_ptr(t) as usize)) {
            return Ok(());
        }
        let so = self.u32(loc, "vtable offset")? as u32 as i32;
        let vt = loc as i64 - i64::from(so);
        if vt < 0 || vt % 2 != 0 {
            return Err(format!("table at {}: vtable at {}", loc, vt));
        }
        let vt = vt as usize;
        let vtlen = self.u16(vt)?;
        let inline = self.u16(vt + 2)?;
        if vtlen < 4 || vtlen % 2 != 0 {
            return Err(format!("vtable at {}: length {}", vt, vtlen));
        }
        self.get(vt, vtlen, "vtable")?;
        self.extent(vt, vt + vtlen, Kind::VTable)?;
        self.mark(vt, vt + vtlen);
        self.extent(loc, loc + inline, Kind::Table)?;
        if inline < 4 {
            return Err(format!("table at {}: inline size {}", loc, inline));
        }
        self.mark(loc, loc + 4);
        if self.seen_tables.insert(loc) {
            *self.vts.entry(vt).or_insert(0) += 1;
            self.tables += 1;
        }
        let env = self.env;
        let tt = &env.tables[t.ty];
        let mut want: HashMap<usize, (Ty, Val)> = HashMap::new();
        for (f, v) in tt.fields.iter().zip(&t.f) {
            let stored = (f.slot as usize) < vtlen && self.u16(vt + f.slot as usize)? != 0;
            if self.lax && !stored && !f.required {
                if let (Some(Val::S(v)), Some(d)) = (v, f.default) {
                    if v.num_eq(d) {
                        continue;
                    }
                }
            }
            if let (None, Ty::Union(_), true) = (v, &f.ty, self.lax) {
                if stored {
                    want.insert(f.slot as usize, (Ty::S(ST::U8), Val::S(Sc::zero(ST::U8))));
                }
            }
            if let Some(v) = v {
                match v {
                    Val::Un(k, tv) => {
                        let u = match &f.ty {
                            Ty::Union(u) => &env.unions[*u],
                            _ => panic!("harness: union value"),
                        };
                        want.insert(f.slot as usize, (Ty::S(ST::U8), Val::S(Sc::new(ST::U8, u64::from(u.variants[*k].2)))));
                        want.insert(f.slot as usize + 2, (Ty::Tab(u.variants[*k].0), Val::Tab(tv.clone())));
                    }
                    _ => {
                        want.insert(f.slot as usize, (f.ty.clone(), v.clone()));
                    }
                }
            }
        }
        let last = want.keys().max().map_or(4, |m| m + 2);
        if self.minimal && vtlen != last {
            return Err(format!("vtable at {}: length {}, the last stored field ends it at {}", vt, vtlen, last));
        }
        let mut spans = vec![(0usize, 4usize)];
        let mut slot = 4;
        while slot < vtlen {
            let o = self.u16(vt + slot)?;
            match want.get(&slot) {
                None if o != 0 => {
                    return Err(format!("table at {}: vtable slot {} is {} for a field never stored", loc, slot, o))
                }
                None => {}
                Some(_) if o == 0 => return Err(format!("table at {}: field of slot {} not stored", loc, slot)),
                Some((ty, v)) => {
                    let sz = ty.inline_size(env);
                    if o + sz > inline {
                        return Err(format!("table at {}: field of slot {} at {}..{} past the inline size {}", loc, slot, o, o + sz, inline));
                    }
                    spans.push((o, o + sz));
                    self.get(loc + o, sz, "field")?;
                    self.mark(loc + o, loc + o + sz);
                    self.inline(loc + o, ty, v)
                        .map_err(|m| format!("slot {} of table at {}: {}", slot, loc, m))?;
                }
            }
            slot += 2;
        }
        for k in want.keys() {
            if *k >= vtlen {
                return Err(format!("table at {}: field of slot {} missing from the vtable", loc, k));
            }
        }
        spans.sort_unstable();
        for w in spans.windows(2) {
            if w[0].1 > w[1].0 {
                return Err(format!("table at {}: fields overlap at {:?} and {:?}", loc, w[0], w[1]));
            }
        }
        Ok(())
    }
    /// Whole-buffer rules once every object has been judged.
    pub fn finish(&self, max_align: usize) -> R<()> {
        let mut prev: Option<(usize, usize, Kind)> = None;
        for (s, (e, k)) in &self.ext {
            if let Some((ps, pe, pk)) = prev {
                if pe > *s {
                    return Err(format!("{:?} {}..{} overlaps {:?} {}..{}", pk, ps, pe, k, s, e));
                }
            }
            prev = Some((*s, *e, *k));
        }
        if self.zero_gaps {
            for (i, l) in self.leaf.iter().enumerate() {
                if !l && self.b[i] != 0 {
                    return Err(format!("byte {} belongs to no object but is {:#x}", i, self.b[i]));
                }
            }
        }
        if self.b.len() % max_align != 0 {
            return Err(format!("length {} is not a multiple of {}", self.b.len(), max_align));
        }
        Ok(())
    }
    /// Sharing rule: equal vtables at one place only.
    pub fn distinct_vtables(&self) -> R<usize> {
        let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
        for vt in self.vts.keys() {
            let n = self.u16(*vt)?;
            let bytes = self.get(*vt, n, "vtable")?.to_vec();
            if let Some(o) = seen.insert(bytes, *vt) {
                return Err(format!("identical vtables at {} and {}", o, vt));
            }
        }
        Ok(self.vts.len())
    }
}
