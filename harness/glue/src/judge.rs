//! Oracles over observations.
use crate::Obs;
use butte::Error;
use model::dec::{Exp, Len};
use model::names::{snake, union_type_acc};
use model::*;

type R = Result<(), String>;

pub fn sc_same(a: Sc, b: Sc) -> bool {
    a.t == b.t && (a.bits == b.bits || (a.is_nan() && b.is_nan() && a.bits >> (8 * a.t.size() - 1) == b.bits >> (8 * b.t.size() - 1)))
}

/// What is known about how the buffer came about.
#[derive(Clone, Copy, PartialEq)]
pub enum By {
    /// written by the generated code from the value
    Generated,
    /// written by the independent encoder: fields not in the value are absent
    Encoder,
}

/// Judges what was read against the value that was written.
pub fn table(env: &Env, by: By, t: &TVal, o: &Obs) -> R {
    let tt = &env.tables[t.ty];
    let fs = match o {
        Obs::Cut => return Ok(()),
        Obs::Tab(fs) => fs,
        o => return Err(format!("expected table {}, got {:?}", tt.name, o)),
    };
    if fs.len() != tt.fields.len() {
        return Err("harness: number of fields".into());
    }
    for (i, f) in tt.fields.iter().enumerate() {
        // the value may be of an older version of the schema (fewer fields)
        // or of a newer one (more fields)
        let (by, v) = if i < t.f.len() { (by, &t.f[i]) } else { (By::Encoder, &None) };
        field(env, by, f, v, &fs[i]).map_err(|m| format!("{}.{}: {}", tt.name, f.name, m))?;
    }
    Ok(())
}

/// A variant that only a newer version of the schema has.
fn unknown(o: &Obs) -> R {
    match o {
        Obs::Cut | Obs::Err(Error::UnknownEnumVariant) | Obs::Err(Error::UnknownUnionVariant) => Ok(()),
        o => Err(format!("a variant this schema does not know reads {:?}", o)),
    }
}

/// The scalar a reader must report for field `f` with value `v`.
fn want_scalar(env: &Env, by: By, f: &Field, v: &Option<Val>) -> Option<Vec<Sc>> {
    let v = match v {
        Some(Val::S(s)) => Some(*s),
        None => None,
        _ => panic!("harness: scalar"),
    };
    Some(match (v, f.default) {
        (Some(v), Some(d)) if v.t.is_float() && v.num_eq(d) => vec![v, d],
        (Some(v), _) => vec![v],
        (None, Some(d)) => vec![d],
        // an enum without default: the writer stores the first variant
        (None, None) if by == By::Generated => match &f.ty {
            Ty::Enum(e) => vec![Sc::int(env.enums[*e].base, env.enums[*e].variants[0].2)],
            _ => panic!("harness: default"),
        },
        (None, None) => return None,
    })
}

pub fn field(env: &Env, by: By, f: &Field, v: &Option<Val>, o: &Obs) -> R {
    if *o == Obs::Cut {
        return Ok(());
    }
    match &f.ty {
        Ty::S(_) | Ty::Enum(_) => {
            if let (Ty::Enum(e), Some(Val::S(v))) = (&f.ty, v) {
                if env.enums[*e].variants.iter().all(|x| x.2 != v.as_int()) {
                    return unknown(o);
                }
            }
            let got = match o {
                Obs::S(s) => Some(*s),
                Obs::En(k) => match &f.ty {
                    Ty::Enum(e) => Some(Sc::int(env.enums[*e].base, env.enums[*e].variants[*k].2)),
                    _ => None,
                },
                Obs::Absent => None,
                o => return Err(format!("expected {:?} (default {:?}), got {:?}", v, f.default, o)),
            };
            match (want_scalar(env, by, f, v), got) {
                (None, None) => Ok(()),
                (Some(w), Some(g)) if w.iter().any(|w| sc_same(*w, g)) => Ok(()),
                (w, g) => Err(format!("expected {:?} (value {:?}, default {:?}), got {:?}", w, v, f.default, g)),
            }
        }
        Ty::Union(u) => {
            let (to, vo) = match o {
                Obs::Un(t, v) => (&**t, &**v),
                o => return Err(format!("harness: union {:?}", o)),
            };
            match v {
                None => {
                    if !matches!(to, Obs::Absent | Obs::En(0)) {
                        return Err(format!("no union value but its type reads {:?}", to));
                    }
                    if *vo != Obs::Absent {
                        return Err(format!("no union value but {:?}", vo));
                    }
                    Ok(())
                }
                Some(Val::Un(k, _)) if *k >= env.unions[*u].variants.len() => {
                    unknown(to)?;
                    unknown(vo)
                }
                Some(Val::Un(k, tv)) => {
                    if *to != Obs::En(k + 1) {
                        return Err(format!("union variant {} has type {:?}", k, to));
                    }
                    match vo {
                        Obs::Cut => Ok(()),
                        Obs::Var(g, gt, t) => {
                            if g != k || **gt != Obs::En(k + 1) {
                                return Err(format!("union variant {} reads as variant {} with get_type {:?}", k, g, gt));
                            }
                            table(env, by, tv, t)
                        }
                        o => Err(format!("expected union variant {}, got {:?}", k, o)),
                    }
                }
                _ => panic!("harness: union"),
            }
        }
        ty => match v {
            None => {
                if *o == Obs::Absent {
                    Ok(())
                } else {
                    Err(format!("unset but reads {:?}", o))
                }
            }
            Some(v) => value(env, by, ty, v, o),
        },
    }
}

fn value(env: &Env, by: By, ty: &Ty, v: &Val, o: &Obs) -> R {
    if *o == Obs::Cut {
        return Ok(());
    }
    match (ty, v, o) {
        (Ty::Enum(e), Val::S(a), o) if env.enums[*e].variants.iter().all(|x| x.2 != a.as_int()) => unknown(o),
        (Ty::S(_), Val::S(a), Obs::S(b)) if sc_same(*a, *b) => Ok(()),
        (Ty::Enum(e), Val::S(a), Obs::En(k)) if a.as_int() == env.enums[*e].variants[*k].2 => Ok(()),
        (Ty::Str, Val::Str(s), Obs::Str(g)) if s.as_bytes() == &g[..] => Ok(()),
        (Ty::Tab(_), Val::Tab(t), o) => table(env, by, t, o),
        (Ty::Vec(e), Val::Vec(xs), Obs::Vec { len, items, past, iter, empty }) => {
            if *len != Ok(xs.len()) || *empty != Ok(xs.is_empty()) {
                return Err(format!("vector of {} elements has len {:?}, is_empty {:?}", xs.len(), len, empty));
            }
            if !past {
                return Err("index past the end accepted".into());
            }
            for (i, o) in items {
                value(env, by, e, &xs[*i], o).map_err(|m| format!("element {}: {}", i, m))?;
            }
            if let Some(it) = iter {
                if it.len() != xs.len() {
                    return Err(format!("vector of {} elements yields {}", xs.len(), it.len()));
                }
                for (i, o) in it.iter().enumerate() {
                    value(env, by, e, &xs[i], o).map_err(|m| format!("iterated element {}: {}", i, m))?;
                }
            }
            Ok(())
        }
        _ => Err(format!("expected {:?}, got {:?}", v, o)),
    }
}

// ------------------------------------------------------ arbitrary bytes

fn names_union(f: &Field, o: &Obs) -> bool {
    match o {
        Obs::Err(Error::RequiredFieldMissing(n)) => *n == snake(&f.name) || *n == union_type_acc(&f.name),
        _ => false,
    }
}

pub struct Lenient<'a> {
    pub env: &'a Env,
    pub l: Len<'a>,
    /// what was judged: values, absences, errors
    pub n: [u64; 3],
}

impl<'a> Lenient<'a> {
    pub fn new(env: &'a Env, b: &'a [u8]) -> Self {
        Lenient { env, l: Len { b }, n: [0; 3] }
    }
    pub fn root(&mut self, ty: usize, o: &Obs) -> R {
        let p = self.l.root(false);
        self.at(p, o, |s, p, o| s.table(p, ty, o))
    }
    fn at<T: std::fmt::Debug>(&mut self, p: Exp<T>, o: &Obs, f: impl FnOnce(&mut Self, T, &Obs) -> R) -> R {
        match (p, o) {
            (_, Obs::Cut) | (Exp::Any, _) => Ok(()),
            (Exp::Err, Obs::Err(_)) | (Exp::OkOrErr(_), Obs::Err(_)) => {
                self.n[2] += 1;
                Ok(())
            }
            (Exp::Err, o) => Err(format!("the bytes designate nothing readable, but got {:?}", o)),
            (Exp::Ok(p), o) | (Exp::OkOrErr(p), o) => f(self, p, o),
        }
    }
    pub fn table(&mut self, loc: i128, ty: usize, o: &Obs) -> R {
        let env = self.env;
        let tt = &env.tables[ty];
        let fs = match o {
            Obs::Cut => return Ok(()),
            Obs::Tab(fs) => fs,
            o => return Err(format!("table {} at {}: got {:?}", tt.name, loc, o)),
        };
        for (f, o) in tt.fields.iter().zip(fs) {
            self.field(loc, f, o).map_err(|m| format!("{} at {}, field {}: {}", tt.name, loc, f.name, m))?;
        }
        Ok(())
    }
    fn none(&mut self, o: &Obs, f: &Field) -> R {
        self.n[1] += 1;
        let scalar = matches!(f.ty, Ty::S(_) | Ty::Enum(_));
        match o {
            Obs::Absent if !f.required => Ok(()),
            Obs::Err(Error::RequiredFieldMissing(n)) if f.required && *n == snake(&f.name) => Ok(()),
            Obs::Err(_) if f.required && scalar => Ok(()),
            o => Err(format!("absent (required: {}), but got {:?}", f.required, o)),
        }
    }
    fn field(&mut self, loc: i128, f: &Field, o: &Obs) -> R {
        let env = self.env;
        if let Ty::Union(u) = &f.ty {
            let (to, vo) = match o {
                Obs::Un(t, v) => (&**t, &**v),
                Obs::Cut => return Ok(()),
                o => return Err(format!("harness: union {:?}", o)),
            };
            let ut = &env.unions[*u];
            // index in the type enum: 0 is none
            let l = self.l;
            let ty: Exp<Option<usize>> = l.opt(l.field(loc, f.slot), |p| {
                l.scalar(ST::U8, p).and_then(|s| match s.bits {
                    0 => Exp::Ok(0),
                    b => match ut.variants.iter().position(|v| u64::from(v.2) == b) {
                        Some(k) => Exp::Ok(k + 1),
                        None => Exp::Err,
                    },
                })
            });
            self.at(ty.clone(), to, |s, k, o| match (k, o) {
                (None, o) => {
                    s.n[1] += 1;
                    if (*o == Obs::Absent && !f.required) || (f.required && names_union(f, o)) {
                        Ok(())
                    } else {
                        Err(format!("absent union type reads {:?}", o))
                    }
                }
                (Some(k), Obs::En(g)) if k == *g => {
                    s.n[0] += 1;
                    Ok(())
                }
                (k, o) => Err(format!("union type {:?} reads {:?}", k, o)),
            })
            .map_err(|m| format!("type: {}", m))?;
            // a discriminant the schema does not know must be reported as such
            if let (Exp::Err, Obs::Err(e)) = (&ty, to) {
                let known = l.opt(l.field(loc, f.slot), |p| l.scalar(ST::U8, p));
                if let (Exp::Ok(Some(_)), false) = (known, *e == Error::UnknownEnumVariant || *e == Error::UnknownUnionVariant) {
                    return Err(format!("undefined discriminant reported as {:?}", e));
                }
            }
            return self.at(ty, vo, |s, k, o| match k {
                None | Some(0) => match o {
                    // the error of a missing required union may name its type field
                    o if f.required && names_union(f, o) => {
                        s.n[1] += 1;
                        Ok(())
                    }
                    o => s.none(o, f),
                },
                Some(k) => {
                    let p = l.field(loc, f.slot + 2);
                    s.at(p, o, |s, p, o| match p {
                        None => s.none(o, f),
                        Some(p) => {
                            let t = l.uoff(p);
                            s.at(t, o, |s, t, o| match o {
                                Obs::Var(g, gt, tab) => {
                                    if *g != k - 1 || **gt != Obs::En(k) {
                                        return Err(format!("discriminant selects variant {} but got variant {} with get_type {:?}", k - 1, g, gt));
                                    }
                                    s.table(t, ut.variants[k - 1].0, tab)
                                }
                                o => Err(format!("union variant {} expected, got {:?}", k - 1, o)),
                            })
                        }
                    })
                }
            });
        }
        let p = self.l.field(loc, f.slot);
        self.at(p, o, |s, p, o| match p {
            Some(p) => s.inline(p, &f.ty, o),
            None => {
                if let (Some(d), true) = (f.default, !matches!(o, Obs::Err(_))) {
                    s.n[1] += 1;
                    let got = s.scalar_of(&f.ty, o);
                    return match got {
                        Some(g) if sc_same(g, d) || g.num_eq(d) => Ok(()),
                        _ => Err(format!("absent with default {:?} reads {:?}", d, o)),
                    };
                }
                s.none(o, f)
            }
        })
    }
    fn scalar_of(&self, ty: &Ty, o: &Obs) -> Option<Sc> {
        match (ty, o) {
            (Ty::S(t), Obs::S(s)) if s.t == *t => Some(*s),
            (Ty::Enum(e), Obs::En(k)) => Some(Sc::int(self.env.enums[*e].base, self.env.enums[*e].variants.get(*k)?.2)),
            _ => None,
        }
    }
    fn inline(&mut self, p: i128, ty: &Ty, o: &Obs) -> R {
        let l = self.l;
        let env = self.env;
        match ty {
            Ty::S(t) => self.at(l.scalar(*t, p), o, |s, v, o| match o {
                Obs::S(g) if sc_same(*g, v) => {
                    s.n[0] += 1;
                    Ok(())
                }
                o => Err(format!("{:?} at {} reads {:?}", v, p, o)),
            }),
            Ty::Enum(e) => {
                let et = &env.enums[*e];
                self.at(l.scalar(et.base, p), o, |s, v, o| {
                    match (et.variants.iter().position(|x| x.2 == v.as_int()), o) {
                        (Some(k), Obs::En(g)) if k == *g => {
                            s.n[0] += 1;
                            Ok(())
                        }
                        (None, Obs::Err(Error::UnknownEnumVariant)) => {
                            s.n[2] += 1;
                            Ok(())
                        }
                        (k, o) => Err(format!("{:?} at {} is variant {:?}, reads {:?}", v, p, k, o)),
                    }
                })
            }
            _ => self.at(l.uoff(p), o, |s, t, o| s.object(t, ty, o)),
        }
    }
    fn object(&mut self, loc: i128, ty: &Ty, o: &Obs) -> R {
        let l = self.l;
        match ty {
            Ty::Str => self.at(l.string(loc), o, |s, v, o| match o {
                Obs::Str(g) if *g == v => {
                    s.n[0] += 1;
                    Ok(())
                }
                o => Err(format!("string {:?} at {} reads {:?}", v, loc, o)),
            }),
            Ty::Tab(t) => self.table(loc, *t, o),
            Ty::Vec(e) => {
                let (len, items, past, iter, empty) = match o {
                    Obs::Cut => return Ok(()),
                    Obs::Vec { len, items, past, iter, empty } => (len, items, past, iter, empty),
                    o => return Err(format!("vector at {} reads {:?}", loc, o)),
                };
                let n: Exp<usize> = l.u32(loc).map(|n| n as usize);
                n.judge(len).map_err(|m| format!("vector length at {}: {}", loc, m))?;
                n.clone().map(|n| n == 0).judge(empty)?;
                if !past {
                    return Err(format!("vector at {}: index past the end accepted", loc));
                }
                let sz = e.inline_size(self.env) as i128;
                for (i, o) in items.iter().map(|(i, o)| (*i, o)).chain(iter.iter().flatten().enumerate()) {
                    self.inline(loc + 4 + i as i128 * sz, e, o).map_err(|m| format!("vector at {}, element {}: {}", loc, i, m))?;
                }
                if let (Exp::Ok(n), Some(it)) = (&n, iter) {
                    if it.len() != *n {
                        return Err(format!("vector at {} of {} elements yields {}", loc, n, it.len()));
                    }
                }
                Ok(())
            }
            _ => panic!("harness: object"),
        }
    }
}
