//! Differential monitor for reading arbitrary bytes: every call into butte is
//! judged against what the bytes designate.
use crate::sut::*;
use crate::{with_st, with_struct};
use butte::*;
use model::dec::{Exp, Len};
use model::*;

pub type V = Result<(), String>;

pub struct Diff<'a, 'e> {
    pub env: &'e Env,
    pub b: &'a [u8],
    pub budget: usize,
    pub ok: u64,
    pub err: u64,
    pub any: u64,
}

const CAP: u64 = 10;

impl<'a, 'e> Diff<'a, 'e> {
    pub fn new(env: &'e Env, b: &'a [u8]) -> Self {
        Diff { env, b, budget: 400, ok: 0, err: 0, any: 0 }
    }
    fn judge<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, exp: &Exp<T>, got: &R<T>) -> V {
        match (exp, got) {
            (Exp::Any, _) => self.any += 1,
            (_, Ok(_)) => self.ok += 1,
            (_, Err(_)) => self.err += 1,
        }
        exp.judge(got).map_err(|m| format!("{}: {}", what, m))
    }
    fn l(&self) -> Len<'a> {
        Len { b: self.b }
    }

    pub fn roots(&mut self, ty: usize) -> V {
        for sp in [false, true] {
            let exp = self.l().root(sp);
            let got = if sp {
                Table::<&[u8]>::get_size_prefixed_root(self.b)
            } else {
                Table::<&[u8]>::get_root(self.b)
            };
            let got2 = if sp {
                get_size_prefixed_root::<Table<&[u8]>, _>(self.b)
            } else {
                get_root::<Table<&[u8]>, _>(self.b)
            };
            self.judge("root", &exp, &got.map(|t| t.loc as i128))?;
            self.judge("root (function)", &exp, &got2.map(|t| t.loc as i128))?;
            for id in ["ABCD", "\0\0\0\0"] {
                let at = if sp { 8 } else { 4 };
                let exp = match self.l().bytes(at, 4) {
                    None => Exp::Err,
                    Some(x) => Exp::Ok(x == id.as_bytes()),
                };
                self.judge("identifier", &exp, &buffer_has_identifier(self.b, id, sp))?;
            }
            if let Ok(t) = got {
                self.table(t, ty, 0).map_err(|m| format!("size_prefixed={}: {}", sp, m))?;
            }
        }
        Ok(())
    }

    pub fn table(&mut self, t: Table<&'a [u8]>, ty: usize, depth: usize) -> V {
        if self.budget == 0 || depth > 12 {
            return Ok(());
        }
        self.budget -= 1;
        self.vtable(&t)?;
        let env = self.env;
        for (k, f) in env.tables[ty].fields.iter().enumerate() {
            self.field(&t, f, depth).map_err(|m| format!("T{}@{}.f{}(slot {}, {:?}): {}", ty, t.loc, k, f.slot, f.ty, m))?;
        }
        Ok(())
    }

    fn vtable(&mut self, t: &Table<&'a [u8]>) -> V {
        let l = self.l();
        let loc = t.loc as i128;
        let vt = l.vtable(loc);
        let got = t.vtable();
        self.judge("vtable", &vt.clone().map(|_| ()), &got.as_ref().map(|_| ()).map_err(|e| *e))?;
        if let (Some(vt), Ok(v)) = (vt.value(), got) {
            let n = l.u16(vt);
            self.judge("vtable length", &n.clone().map(|x| x as usize), &v.num_bytes())?;
            self.judge("inline size", &l.u16(vt + 2).map(|x| x as usize), &v.object_inline_num_bytes())?;
            let bytes = n.clone().and_then(|n| l.raw(vt, n as usize));
            self.judge("vtable bytes", &bytes, &v.as_bytes().map(|b| b.to_vec()))?;
            let nf = n.clone().and_then(|n| if n < 4 { Exp::Ok(0) } else { Exp::Ok((n as usize - 4) / 2) });
            self.judge("field count", &nf, &v.num_fields())?;
            for i in [0usize, 1, 2, 7, 40000, usize::MAX] {
                let exp = nf.clone().and_then(|nf| {
                    if i >= nf {
                        Exp::Ok(None)
                    } else {
                        l.u16(vt + 4 + 2 * i as i128).map(Some)
                    }
                });
                self.judge("indexed field", &exp, &v.get_field(i))?;
            }
            for s in [4u16, 6, 8, 65534] {
                self.judge("vtable entry", &l.vt_entry(vt, s), &v.get(s))?;
            }
            for s in [0u16, 1, 2, 3, 5, 65535] {
                let _ = v.get(s);
            }
        }
        Ok(())
    }

    fn field(&mut self, t: &Table<&'a [u8]>, f: &Field, depth: usize) -> V {
        let l = self.l();
        let pos = l.field(t.loc as i128, f.slot);
        // Table methods borrow the table; copy it so results live as long as the buffer
        let buf: &'a [u8] = t.buf;
        let got_pos = t.get::<DynLoc>(f.slot, None).map(|o| o.map(|x| x.1 as i128));
        self.judge("field position", &pos, &got_pos)?;
        let at = match got_pos {
            Ok(Some(p)) => p as usize,
            Ok(None) => {
                // absent: the default comes back
                let g = t.get::<i32>(f.slot, Some(-7));
                if g != Ok(Some(-7)) {
                    return Err(format!("absent field with default reads {:?}", g));
                }
                return Ok(());
            }
            Err(_) => {
                if t.get::<u8>(f.slot, Some(3)).is_ok() && pos == Exp::Err {
                    return Err("unreadable vtable reads as a value".into());
                }
                return Ok(());
            }
        };
        let p = at as i128;
        match &f.ty {
            Ty::S(st) => with_st!(*st, T => {
                let exp = l.scalar(*st, p);
                self.judge("scalar", &exp.clone().map(Some), &t.get::<T>(f.slot, None).map(|o| o.map(|x| x.sc())))?;
                self.judge("scalar with default", &exp.clone().map(Some), &t.get::<T>(f.slot, Some(<T as ToSc>::of(Sc::new(*st, 1)))).map(|o| o.map(|x| x.sc())))?;
                self.judge("read_scalar_at", &exp, &read_scalar_at::<T>(buf, at).map(|x| x.sc()))?;
                Ok(())
            }),
            Ty::Struct(k) => with_struct!(*k, T => {
                let exp = l.raw(p, STRUCTS[*k].0).map(Some);
                self.judge("struct", &exp, &t.get::<T>(f.slot, None).map(|o| o.map(|x| x.0.to_vec())))
            }),
            _ => {
                let tgt = l.uoff(p);
                let got = t.get::<ForwardsUOffset<DynLoc>>(f.slot, None);
                self.judge("offset", &tgt.clone().map(|x| Some(x)), &got.map(|o| o.map(|x| x.1 as i128)))?;
                let to = match got {
                    Ok(Some(x)) => x.1,
                    _ => return Ok(()),
                };
                match &f.ty {
                    Ty::Str | Ty::Bytes => {
                        let exp = l.string(to as i128);
                        self.judge("string field", &exp.map(Some), &t.get::<ForwardsUOffset<&str>>(f.slot, None).map(|o| o.map(|s| s.as_bytes().to_vec())))?;
                    }
                    _ => {}
                }
                self.object(buf, to, &f.ty, depth)
            }
        }
    }

    fn object(&mut self, buf: &'a [u8], at: usize, ty: &Ty, depth: usize) -> V {
        if self.budget == 0 || depth > 12 {
            return Ok(());
        }
        self.budget -= 1;
        let l = self.l();
        let p = at as i128;
        match ty {
            Ty::Str | Ty::Bytes => {
                self.judge("string", &l.string(p), &<&str as Follow>::follow(buf, at).map(|s| s.as_bytes().to_vec()))?;
                self.slice(buf, at, ST::U8)?;
                self.vector(buf, at, &Ty::S(ST::U8), depth)
            }
            Ty::Tab(t) => self.table(Table::new(buf, at), *t, depth + 1),
            Ty::Vec(e) => {
                if let Ty::S(st) = &**e {
                    self.slice(buf, at, *st)?;
                }
                self.vector(buf, at, e, depth + 1)
            }
            _ => panic!("harness: object"),
        }
    }

    #[cfg(target_endian = "big")]
    fn slice(&mut self, _: &'a [u8], _: usize, _: ST) -> V {
        Ok(())
    }
    #[cfg(target_endian = "little")]
    fn slice(&mut self, buf: &'a [u8], at: usize, st: ST) -> V {
        let exp = self.l().slice(st, at as i128, buf.as_ptr() as usize);
        with_st!(st, T => {
            let got = <&[T] as Follow>::follow(buf, at).map(|s| s.iter().map(|x| x.sc()).collect::<Vec<_>>());
            self.judge("slice", &exp, &got)?;
        });
        macro_rules! safe {
            ($($s:ident $t:ident),*) => {
                match st {
                    $(ST::$s => {
                        let got = Vector::<$t>::new(buf, at).safe_slice().map(|s| s.iter().map(|x| x.sc()).collect::<Vec<_>>());
                        self.judge("safe_slice", &exp, &got)?;
                    })*
                    _ => {}
                }
            }
        }
        safe!(U8 u8, I8 i8, U16 u16, I16 i16, U32 u32, I32 i32, U64 u64, I64 i64, F32 f32, F64 f64);
        Ok(())
    }

    fn vector(&mut self, buf: &'a [u8], at: usize, e: &Ty, depth: usize) -> V {
        let l = self.l();
        let n = l.u32(at as i128);
        let v: Vector<u8> = Vector::new(buf, at);
        self.judge("vector length", &n.clone().map(|x| x as usize), &v.len())?;
        self.judge("is_empty", &n.clone().map(|x| x == 0), &v.is_empty())?;
        let n = match n {
            Exp::Ok(n) => u64::from(n),
            _ => {
                if v.iter().next().is_some() {
                    return Err("iterator over an unreadable vector is not empty".into());
                }
                0
            }
        };
        let mut idx: Vec<u64> = (0..n.min(CAP)).collect();
        if n > CAP {
            idx.push(n / 2);
            idx.push(n - 1);
        }
        idx.extend_from_slice(&[n, n + 1, u64::from(u32::MAX), usize::MAX as u64]);
        let sz = e.inline_size(self.env);
        for i in idx.into_iter().filter(|i| *i <= usize::MAX as u64) {
            let pos = l.elem(at as i128, i, sz);
            match e {
                Ty::S(st) => with_st!(*st, T => {
                    let exp = pos.and_then(|p| l.scalar(*st, p));
                    let v: Vector<T> = Vector::new(buf, at);
                    self.judge("element", &exp, &v.get(i as usize).map(|x| x.sc()))?;
                    if i < n && i <= reach(false) {
                        self.judge("iter().nth", &exp, &v.iter().nth(i as usize).ok_or("iterator ended early")?.map(|x| x.sc()))?;
                    }
                    if i < n && n - 1 - i <= reach(true) {
                        self.judge("iter().nth_back", &exp, &v.iter().nth_back((n - 1 - i) as usize).ok_or("iterator ended early")?.map(|x| x.sc()))?;
                    }
                }),
                Ty::Struct(k) => with_struct!(*k, T => {
                    let exp = pos.and_then(|p| l.raw(p, sz));
                    let v: Vector<T> = Vector::new(buf, at);
                    self.judge("element", &exp, &v.get(i as usize).map(|x| x.0.to_vec()))?;
                }),
                Ty::Str => {
                    let exp = pos.and_then(|p| l.uoff(p)).and_then(|p| l.string(p));
                    let v: Vector<ForwardsUOffset<&str>> = Vector::new(buf, at);
                    self.judge("element", &exp, &v.get(i as usize).map(|x| x.as_bytes().to_vec()))?;
                }
                _ => {
                    let exp = pos.and_then(|p| l.uoff(p));
                    let v: Vector<ForwardsUOffset<DynLoc>> = Vector::new(buf, at);
                    let got = v.get(i as usize);
                    self.judge("element", &exp, &got.map(|x| x.1 as i128))?;
                    if i < n && i <= reach(false) {
                        self.judge("iter().nth", &exp, &v.iter().nth(i as usize).ok_or("iterator ended early")?.map(|x| x.1 as i128))?;
                    }
                    if let Ok(x) = got {
                        self.object(buf, x.1, e, depth + 1)?;
                    }
                }
            }
        }
        Ok(())
    }

    /// Every reader at an arbitrary position.
    pub fn probe(&mut self, at: usize, r: &mut Rng) -> V {
        let buf = self.b;
        let l = self.l();
        let p = at as i128;
        for st in ALL_ST {
            with_st!(st, T => {
                self.judge("scalar at", &l.scalar(st, p), &read_scalar_at::<T>(buf, at).map(|x| x.sc()))?;
                self.judge("follow scalar", &l.scalar(st, p), &<T as Follow>::follow(buf, at).map(|x| x.sc()))?;
                if let Some(s) = buf.get(at..) {
                    self.judge("read_scalar", &l.scalar(st, p), &read_scalar::<T>(s).map(|x| x.sc()))?;
                }
            });
            self.slice(buf, at, st)?;
        }
        self.judge("string", &l.string(p), &<&str as Follow>::follow(buf, at).map(|s| s.as_bytes().to_vec()))?;
        self.judge("offset", &l.uoff(p), &<ForwardsUOffset<DynLoc>>::follow(buf, at).map(|x| x.1 as i128))?;
        self.judge("voffset", &l.u16(p).map(|o| p + i128::from(o)), &<ForwardsVOffset<DynLoc>>::follow(buf, at).map(|x| x.1 as i128))?;
        self.judge("soffset", &l.vtable(p), &<BackwardsSOffset<DynLoc>>::follow(buf, at).map(|x| x.1 as i128))?;
        self.judge("skip size prefix", &l.u32(p + 4), &<SkipSizePrefix<u32>>::follow(buf, at))?;
        self.judge("skip root", &l.u32(p + 4), &<SkipRootOffset<u32>>::follow(buf, at))?;
        self.judge("skip identifier", &l.u32(p + 4), &<SkipFileIdentifier<u32>>::follow(buf, at))?;
        self.judge("identifier", &l.raw(p, 4), &FileIdentifier::follow(buf, at).map(|x| x.to_vec()))?;
        self.judge("follow start", &l.u32(p), &<FollowStart<u32> as Follow>::follow(buf, at))?;
        {
            let fs: FollowStart<u32> = FollowStart::new();
            let g = fs.self_follow(buf, at);
            self.judge("self follow", &l.u32(p), &g)?;
        }
        // any bytes are a [u8; 7]
        self.judge("cast", &l.raw(p, 7), &unsafe { follow_cast_ref::<[u8; 7]>(buf, at) }.map(|x| x.to_vec()))?;
        self.vtable(&Table::new(buf, at))?;
        let ty = r.below(self.env.tables.len());
        self.table(Table::new(buf, at), ty, 0)?;
        let e = match r.below(4) {
            0 => Ty::Str,
            1 => Ty::Struct(r.below(STRUCTS.len())),
            _ => Ty::S(*r.pick(&ALL_ST)),
        };
        self.vector(buf, at, &e, 0)
    }
}
