//! Reads a buffer through butte and compares with the value it must hold.
use crate::sut::*;
use crate::{with_st, with_struct};
use butte::*;
use model::*;

pub type V = Result<(), String>;

pub struct Cmp<'e> {
    pub env: &'e Env,
    pub reads: u64,
}

fn e<T>(what: &str, x: R<T>) -> Result<T, String> {
    x.map_err(|m| format!("{}: unexpected error {:?}", what, m))
}

impl<'e> Cmp<'e> {
    pub fn new(env: &'e Env) -> Self {
        Cmp { env, reads: 0 }
    }

    pub fn table<B: AsRef<[u8]>>(&mut self, tab: &Table<B>, tv: &TVal) -> V {
        let env = self.env;
        let tt = &env.tables[tv.ty];
        for (k, (f, v)) in tt.fields.iter().zip(&tv.f).enumerate() {
            self.field(tab, f, v.as_ref()).map_err(|m| format!("T{}.f{} ({:?}): {}", tv.ty, k, f.ty, m))?;
        }
        // a slot between the stored fields that no field of the type uses is absent
        let last = tt.fields.iter().map(|f| f.slot).max().unwrap_or(2);
        for s in [4u16, 6, 8, 10, 20, 64] {
            if s < last && tt.fields.iter().all(|f| f.slot != s) {
                let g = e("unused slot", tab.get::<u8>(s, None))?;
                if g.is_some() {
                    return Err(format!("slot {} was never stored but reads {:?}", s, g));
                }
            }
        }
        Ok(())
    }

    fn field<B: AsRef<[u8]>>(&mut self, tab: &Table<B>, f: &Field, v: Option<&Val>) -> V {
        self.reads += 1;
        match &f.ty {
            Ty::S(t) => {
                let want = v.map(|v| if let Val::S(s) = v { *s } else { panic!("harness") });
                let d = f.default.unwrap_or(Sc::zero(*t));
                with_st!(*t, T => {
                    let got = e("get with default", tab.get::<T>(f.slot, Some(<T as ToSc>::of(d))))?.map(|x| x.sc());
                    let exp = Some(want.unwrap_or(d));
                    if got != exp {
                        return Err(format!("reads {:?}, expected {:?}", got, exp));
                    }
                    let got = e("get", tab.get::<T>(f.slot, None))?.map(|x| x.sc());
                    if got != want {
                        return Err(format!("without default reads {:?}, expected {:?}", got, want));
                    }
                });
                Ok(())
            }
            Ty::Struct(k) => with_struct!(*k, T => {
                let got = e("get struct", tab.get::<T>(f.slot, None))?.map(|x| x.0.to_vec());
                let want = v.map(|v| if let Val::Struct(b) = v { b.clone() } else { panic!("harness") });
                if got != want { return Err(format!("reads {:?}, expected {:?}", got, want)); }
                Ok(())
            }),
            Ty::Str => {
                let want = v.map(|v| if let Val::Str(s) = v { &s[..] } else { panic!("harness") });
                let got = e("get string", tab.get::<ForwardsUOffset<&str>>(f.slot, None))?;
                if got != want {
                    return Err(format!("reads {:?}, expected {:?}", got, want));
                }
                let got = e("get string", tab.get::<ForwardsUOffset<&str>>(f.slot, Some("dflt")))?;
                if got != want.or(Some("dflt")) {
                    return Err(format!("with default reads {:?}, expected {:?}", got, want));
                }
                self.bytes(tab, f, want.map(|s| s.as_bytes()))
            }
            Ty::Bytes => self.bytes(tab, f, v.map(|v| if let Val::Bytes(b) = v { &b[..] } else { panic!("harness") })),
            Ty::Tab(_) => {
                let got = e("get table", tab.get::<ForwardsUOffset<DynTab>>(f.slot, None))?;
                match (got, v) {
                    (None, None) => Ok(()),
                    (Some(t), Some(Val::Tab(tv))) => self.table(&t, tv),
                    (g, _) => Err(format!("table presence {}, expected {}", g.is_some(), v.is_some())),
                }
            }
            Ty::Vec(el) => {
                let got = e("get vector", tab.get::<ForwardsUOffset<DynLoc>>(f.slot, None))?;
                match (got, v) {
                    (None, None) => Ok(()),
                    (Some((b, l)), Some(Val::Vec(xs))) => self.vector(b, l, el, xs),
                    (g, _) => Err(format!("vector presence {}, expected {}", g.is_some(), v.is_some())),
                }
            }
            _ => panic!("harness: field type"),
        }
    }

    fn bytes<B: AsRef<[u8]>>(&mut self, tab: &Table<B>, f: &Field, want: Option<&[u8]>) -> V {
        #[cfg(target_endian = "little")]
        let got = e("get bytes", tab.get::<ForwardsUOffset<&[u8]>>(f.slot, None))?;
        #[cfg(target_endian = "little")]
        if got != want {
            return Err(format!("reads bytes {:?}, expected {:?}", got, want));
        }
        let got = e("get byte vector", tab.get::<ForwardsUOffset<Vector<u8>>>(f.slot, None))?;
        match (got, want) {
            (None, None) => Ok(()),
            (Some(v), Some(w)) => {
                let s = e("safe_slice", v.safe_slice())?;
                if s != w {
                    return Err(format!("safe_slice {:?}, expected {:?}", s, w));
                }
                views(v, w.len(), |i, x| if x == w[i] { Ok(()) } else { Err(format!("{} expected {}", x, w[i])) })
            }
            _ => Err("presence differs".into()),
        }
    }

    pub fn vector(&mut self, b: &[u8], loc: usize, el: &Ty, xs: &[Val]) -> V {
        self.reads += xs.len() as u64;
        match el {
            Ty::S(t) => with_st!(*t, T => {
                let w: Vec<Sc> = xs.iter().map(|x| if let Val::S(s) = x { *s } else { panic!("harness") }).collect();
                let v: Vector<T> = Vector::new(b, loc);
                views(v, w.len(), |i, x: T| if x.sc() == w[i] { Ok(()) } else { Err(format!("{:?} expected {:?}", x.sc(), w[i])) })?;
                #[cfg(target_endian = "little")]
                {
                    let exp = dec::Len { b }.slice(*t, loc as i128, b.as_ptr() as usize);
                    let got = <&[T] as Follow>::follow(b, loc).map(|s| s.iter().map(|x| x.sc()).collect::<Vec<_>>());
                    exp.judge(&got).map_err(|m| format!("slice: {}", m))?;
                }
                Ok(())
            }),
            Ty::Struct(k) => with_struct!(*k, T => {
                let v: Vector<T> = Vector::new(b, loc);
                views(v, xs.len(), |i, x: T| if Val::Struct(x.0.to_vec()) == xs[i] { Ok(()) } else { Err(format!("{:?} expected {:?}", x, xs[i])) })
            }),
            Ty::Str => {
                let v: Vector<ForwardsUOffset<&str>> = Vector::new(b, loc);
                views(v, xs.len(), |i, x| match &xs[i] {
                    Val::Str(s) if s[..] == *x => Ok(()),
                    w => Err(format!("{:?} expected {:?}", x, w)),
                })
            }
            #[cfg(target_endian = "big")]
            Ty::Bytes => Ok(()),
            #[cfg(target_endian = "little")]
            Ty::Bytes => {
                let v: Vector<ForwardsUOffset<&[u8]>> = Vector::new(b, loc);
                views(v, xs.len(), |i, x| match &xs[i] {
                    Val::Bytes(s) if s[..] == *x => Ok(()),
                    w => Err(format!("{:?} expected {:?}", x, w)),
                })
            }
            Ty::Tab(_) => {
                let v: Vector<ForwardsUOffset<DynTab>> = Vector::new(b, loc);
                let mut locs = vec![None; xs.len()];
                views(v, xs.len(), |i, x| match locs[i] {
                    None => {
                        locs[i] = Some(x.loc);
                        match &xs[i] {
                            Val::Tab(tv) => self.table(&x, tv),
                            _ => panic!("harness"),
                        }
                    }
                    Some(l) if l == x.loc => Ok(()),
                    Some(l) => Err(format!("element {} at {} or {}", i, l, x.loc)),
                })
            }
            Ty::Vec(e2) => {
                let v: Vector<ForwardsUOffset<DynLoc>> = Vector::new(b, loc);
                let mut locs = vec![None; xs.len()];
                views(v, xs.len(), |i, x| match locs[i] {
                    None => {
                        locs[i] = Some(x.1);
                        match &xs[i] {
                            Val::Vec(ys) => self.vector(x.0, x.1, e2, ys),
                            _ => panic!("harness"),
                        }
                    }
                    Some(l) if l == x.1 => Ok(()),
                    Some(l) => Err(format!("element {} at {} or {}", i, l, x.1)),
                })
            }
            _ => panic!("harness: element type"),
        }
    }
}

/// Length, emptiness, indexing, both iteration directions, out of range.
fn views<'a, T: Follow<'a> + 'a>(v: Vector<'a, T>, n: usize, mut check: impl FnMut(usize, T::Inner) -> V) -> V {
    let len = e("len", v.len())?;
    if len != n {
        return Err(format!("vector length {}, expected {}", len, n));
    }
    if e("is_empty", v.is_empty())? != (n == 0) {
        return Err("is_empty disagrees with len".into());
    }
    for i in 0..n {
        let x = e(&format!("get({})", i), v.get(i))?;
        check(i, x).map_err(|m| format!("[{}]: {}", i, m))?;
    }
    for i in [n, n + 1, usize::MAX] {
        if v.get(i).is_ok() {
            return Err(format!("get({}) of a vector of {} is not an error", i, n));
        }
    }
    let mut i = 0;
    for x in v.iter() {
        if i >= n {
            return Err("iterator too long".into());
        }
        check(i, e("iter", x)?).map_err(|m| format!("iter [{}]: {}", i, m))?;
        i += 1;
    }
    if i != n {
        return Err(format!("iterator yields {} of {}", i, n));
    }
    for x in v.into_iter().rev() {
        if i == 0 {
            return Err("reverse iterator too long".into());
        }
        i -= 1;
        check(i, e("rev", x)?).map_err(|m| format!("rev [{}]: {}", i, m))?;
    }
    if i != 0 {
        return Err("reverse iterator too short".into());
    }
    Ok(())
}
