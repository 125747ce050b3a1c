//! Runs the generated code of a batch of schemas under the workload of one
//! property. Everything is derived from the seed and the schema's number.
use crate::judge::{self, sc_same, By, Lenient};
use crate::{BCx, Cx, EnumFns, Obs, Sfn, HOWS};
use butte::{Error, FlatBufferBuilder};
use model::dec::{Len, Strict};
use model::enc::{encode, EncOpts};
use model::gen::{mutate, VGen};
use model::names::fix;
use model::run::{Case, Opts, Report};
use model::schema::{for_prop, Schema};
use model::*;
use std::sync::Arc;

type V = Result<(), String>;

/// A random value of table `ty`.
fn value(r: &mut Rng, env: &Env, ty: usize, share: bool) -> Arc<TVal> {
    let budget = match r.below(10) {
        0 => 2,
        1 => 200,
        _ => 30,
    };
    VGen::new(r, env, budget, share).table(ty, 0)
}

fn nodes(t: &TVal) -> u64 {
    fn v(x: &Val) -> u64 {
        match x {
            Val::Tab(t) | Val::Un(_, t) => nodes(t),
            Val::Vec(xs) => 1 + xs.iter().map(v).sum::<u64>(),
            _ => 1,
        }
    }
    1 + t.f.iter().flatten().map(v).sum::<u64>()
}

/// Builds `t` with the generated code; the builder may have been used before.
fn build(r: &mut Rng, s: &Sfn, env: &Env, t: &Arc<TVal>) -> Vec<u8> {
    let mut fbb = if r.bool() { FlatBufferBuilder::new() } else { FlatBufferBuilder::new_with_capacity(r.below(300)) };
    if r.chance(1, 5) {
        let other = r.below(env.tables.len());
        let x = value(r, env, other, false);
        let o = (s.build[other])(&mut fbb, &x, &mut BCx::default());
        if r.bool() {
            fbb.finish_minimal(butte::WIPOffset::<()>::new(o));
        }
        fbb.reset();
    }
    let mut m = BCx { share: r.bool(), arg_defaults: r.bool(), alt: r.bool(), ..Default::default() };
    let o = (s.build[t.ty])(&mut fbb, t, &mut m);
    let root = butte::WIPOffset::<()>::new(o);
    match r.below(3) {
        0 => fbb.finish(root, None),
        1 => fbb.finish(root, Some("BTTE")),
        _ => fbb.finish_minimal(root),
    }
    fbb.finished_data().to_vec()
}

fn has_ident(b: &[u8]) -> bool {
    b.len() >= 8 && &b[4..8] == b"BTTE"
}

fn enc_opts(r: &mut Rng) -> EncOpts {
    EncOpts { size_prefix: false, ident: if r.bool() { Some(*b"abcd") } else { None }, keep_defaults: r.bool(), unknown_fields: r.bool() }
}

fn read(r: &mut Rng, s: &Sfn, ty: usize, b: &[u8], budget: usize) -> Obs {
    (s.read[ty])(b, r.below(HOWS), &mut Cx::new(budget))
}

fn ctx<T>(x: Result<T, String>, b: &[u8], t: &TVal) -> Result<T, String> {
    x.map_err(|m| format!("{}\n  buffer {}\n  value {:.1500}", m, hex(b), format!("{:?}", t)))
}

// C13
fn round_trip(c: &mut Case, s: &Sfn, env: &Env) -> V {
    let ty = c.r.below(env.tables.len());
    let share = c.r.bool();
    let t = value(&mut c.r, env, ty, share);
    let b = build(&mut c.r, s, env, &t);
    let o = read(&mut c.r, s, ty, &b, 100_000);
    c.st.count("values", nodes(&t));
    c.st.count("buffer_bytes", b.len() as u64);
    if t.f.iter().any(|x| x.is_some()) {
        c.st.seen(&b);
    }
    c.st.sample(|| format!("{} = {:?}", env.tables[ty].name, t));
    ctx(judge::table(env, By::Generated, &t, &o), &b, &t)
}

/// The value with everything the generated writer stores spelled out.
fn effective(env: &Env, t: &TVal) -> Arc<TVal> {
    fn v(env: &Env, x: &Val) -> Val {
        match x {
            Val::Tab(t) => Val::Tab(effective(env, t)),
            Val::Un(k, t) => Val::Un(*k, effective(env, t)),
            Val::Vec(xs) => Val::Vec(Arc::new(xs.iter().map(|x| v(env, x)).collect())),
            x => x.clone(),
        }
    }
    let f = env.tables[t.ty].fields.iter().zip(&t.f).map(|(f, x)| match (x, &f.ty) {
        (Some(x), _) => Some(v(env, x)),
        (None, Ty::S(_)) => f.default.map(Val::S),
        (None, Ty::Enum(e)) => Some(Val::S(f.default.unwrap_or_else(|| Sc::int(env.enums[*e].base, env.enums[*e].variants[0].2)))),
        (None, _) => None,
    });
    Arc::new(TVal { ty: t.ty, f: f.collect() })
}

// C14
fn wire(c: &mut Case, s: &Sfn, env: &Env) -> V {
    let ty = c.r.below(env.tables.len());
    let share = c.r.bool();
    let t = value(&mut c.r, env, ty, share);
    if c.r.bool() {
        let b = build(&mut c.r, s, env, &t);
        let e = effective(env, &t);
        let mut d = Strict::new(&b, env);
        d.lax = true;
        d.minimal = false;
        d.zero_gaps = false;
        let res = (|| {
            let root = d.header(false, if has_ident(&b) { Some(b"BTTE") } else { None })?;
            d.table(root, &e)?;
            d.finish(1)
        })();
        c.st.count("written.values", nodes(&t));
        c.st.count("written.objects", d.objects as u64);
        c.st.seen(&b);
        ctx(res, &b, &t)
    } else {
        let o = enc_opts(&mut c.r);
        let b = encode(&mut c.r, env, &t, &o);
        let o = read(&mut c.r, s, ty, &b, 100_000);
        c.st.count("read.values", nodes(&t));
        c.st.seen(&b);
        c.st.sample(|| format!("{} = {:?} from {}", env.tables[ty].name, t, hex(&b)));
        ctx(judge::table(env, By::Encoder, &t, &o), &b, &t)
    }
}

fn field_sc(env: &Env, f: &Field, o: &Obs) -> Option<Sc> {
    match (o, &f.ty) {
        (Obs::S(s), Ty::S(_)) => Some(*s),
        (Obs::En(k), Ty::Enum(e)) => Some(Sc::int(env.enums[*e].base, env.enums[*e].variants[*k].2)),
        _ => None,
    }
}

/// Values next to a default: the ones a wrong default would be mistaken for.
fn near(r: &mut Rng, env: &Env, f: &Field) -> Sc {
    let d = match (&f.ty, f.default) {
        (Ty::Enum(e), _) => {
            let e = &env.enums[*e];
            return Sc::int(e.base, r.pick(&e.variants).2);
        }
        (_, Some(d)) => d,
        _ => panic!("harness: default"),
    };
    let w = d.t.size() * 8;
    match r.below(9) {
        0 => Sc::new(d.t, d.bits.wrapping_add(1)),
        1 => Sc::new(d.t, d.bits.wrapping_sub(1)),
        2 => Sc::new(d.t, d.bits ^ 1u64 << (w - 1)),
        3 => Sc::new(d.t, d.bits ^ 1u64 << r.below(w)),
        4 => Sc::zero(d.t),
        5 => Sc::new(d.t, 1),
        6 => Sc::new(d.t, !d.bits),
        7 => d,
        _ => rand_scalar(r, d.t),
    }
}

// C15
fn defaults(c: &mut Case, s: &Sfn, env: &Env) -> V {
    let ty = c.r.below(env.tables.len());
    let tt = &env.tables[ty];
    // (a) argument defaults, each time: they cost nothing
    if let Some(a) = (s.args[ty])() {
        for (f, o) in tt.fields.iter().zip(&a) {
            let w = match (&f.ty, f.default) {
                (_, Some(d)) => d,
                (Ty::Enum(e), None) => Sc::int(env.enums[*e].base, env.enums[*e].variants[0].2),
                _ => continue,
            };
            match field_sc(env, f, o) {
                Some(g) if sc_same(g, w) => c.st.count("args_defaults", 1),
                _ => return Err(format!("{}.{}: argument default is {:?}, the schema says {:?}", tt.name, f.name, o, w)),
            }
        }
    }
    let mut t = (*VGen::new(&mut c.r, env, 3, false).table(ty, 0)).clone();
    // (b) nothing stored
    if c.r.chance(1, 3) {
        for (f, x) in tt.fields.iter().zip(&mut t.f) {
            if !f.ty.is_ref() {
                *x = None;
            }
        }
        let t = Arc::new(t);
        let o = EncOpts::default();
        let b = encode(&mut c.r, env, &t, &o);
        let o = read(&mut c.r, s, ty, &b, 10_000);
        let fs = match &o {
            Obs::Tab(fs) => fs,
            o => return Err(format!("{}: reads {:?}", tt.name, o)),
        };
        for (f, o) in tt.fields.iter().zip(fs) {
            if let Some(d) = f.default {
                match field_sc(env, f, o) {
                    Some(g) if sc_same(g, d) => c.st.count("absent_reads", 1),
                    _ => return Err(format!("{}.{}: absent reads {:?}, the schema's default is {:?}", tt.name, f.name, o, d)),
                }
            }
        }
        return Ok(());
    }
    // (c) each scalar at or next to its default: what is stored, what is read
    let mode = c.r.below(3);
    for (f, x) in tt.fields.iter().zip(&mut t.f) {
        if f.ty.is_ref() {
            continue;
        }
        *x = match (mode, f.default) {
            (0, _) => None,
            (1, Some(d)) => Some(Val::S(d)),
            _ => Some(Val::S(near(&mut c.r, env, f))),
        };
    }
    let t = Arc::new(t);
    let b = build(&mut c.r, s, env, &t);
    c.st.seen(&b);
    c.st.sample(|| format!("{} = {:?}", tt.name, t));
    let l = Len { b: &b };
    let root = l.root(false).value().ok_or("no root")?;
    for (f, x) in tt.fields.iter().zip(&t.f) {
        let d = match f.default {
            Some(d) => d,
            None => continue,
        };
        let v = match x {
            Some(Val::S(v)) => *v,
            _ => d,
        };
        let stored = l.field(root, f.slot).value().ok_or("unreadable table")?.is_some();
        if !v.num_eq(d) && !stored {
            return Err(format!("{}.{}: {:?} differs from the default {:?} but was not stored", tt.name, f.name, v, d));
        }
        if v.num_eq(d) && stored && !f.required {
            return Err(format!("{}.{}: {:?} equals the default {:?} but was stored", tt.name, f.name, v, d));
        }
        c.st.count(if stored { "stored" } else { "elided" }, 1);
    }
    let o = read(&mut c.r, s, ty, &b, 10_000);
    ctx(judge::table(env, By::Generated, &t, &o), &b, &t)
}

/// The same tables with enums as their base types and unions as two fields,
/// so that any discriminant can be written.
pub fn raw_env(env: &Env) -> Env {
    fn ty(env: &Env, t: &Ty) -> Ty {
        match t {
            Ty::Enum(e) => Ty::S(env.enums[*e].base),
            Ty::Vec(t) => Ty::vec(ty(env, t)),
            t => t.clone(),
        }
    }
    let mut out = env.clone();
    for t in &mut out.tables {
        let mut fs = vec![];
        for f in &t.fields {
            match &f.ty {
                Ty::Union(u) => {
                    let tt = env.unions[*u].variants[0].0;
                    fs.push(Field { ty: Ty::S(ST::U8), default: None, ..f.clone() });
                    fs.push(Field { ty: Ty::Tab(tt), slot: f.slot + 2, ..f.clone() });
                }
                t => fs.push(Field { ty: ty(env, t), default: None, ..f.clone() }),
            }
        }
        t.fields = fs;
    }
    out
}

/// A value of `raw_env` of which `chance` of 16 discriminants are arbitrary.
fn raw_value(r: &mut Rng, env: &Env, raw: &Env, t: &TVal, chance: usize) -> Arc<TVal> {
    fn v(r: &mut Rng, env: &Env, raw: &Env, ty: &Ty, x: &Val, chance: usize) -> Val {
        match (ty, x) {
            (Ty::Enum(e), Val::S(s)) => Val::S(disc(r, &env.enums[*e], *s, chance)),
            (_, Val::Tab(t)) => Val::Tab(raw_value(r, env, raw, t, chance)),
            (Ty::Vec(e), Val::Vec(xs)) => Val::Vec(Arc::new(xs.iter().map(|x| v(r, env, raw, e, x, chance)).collect())),
            (_, x) => x.clone(),
        }
    }
    fn disc(r: &mut Rng, e: &EnumT, s: Sc, chance: usize) -> Sc {
        if r.below(16) >= chance {
            return s;
        }
        match r.below(4) {
            0 => rand_scalar(r, e.base),
            1 => Sc::int(e.base, r.below(e.variants.len() + 3) as i128),
            2 => Sc::new(e.base, s.bits ^ 1u64 << r.below(e.base.size() * 8)),
            _ => Sc::new(e.base, (r.pick(&e.variants).2 as u64).wrapping_add(r.below(3) as u64).wrapping_sub(1)),
        }
    }
    let mut f = vec![];
    for (fd, x) in env.tables[t.ty].fields.iter().zip(&t.f) {
        if let Ty::Union(u) = &fd.ty {
            let ut = &env.unions[*u];
            let (mut d, mut val) = match x {
                Some(Val::Un(k, t)) => {
                    (Some(u64::from(ut.variants[*k].2)), Some(Val::Tab(raw_value(r, env, raw, t, chance))))
                }
                _ => (None, None),
            };
            if r.below(16) < chance {
                d = match r.below(5) {
                    0 => None,
                    1 => Some(0),
                    2 => Some(r.below(ut.variants.len() + 3) as u64),
                    3 => Some(u64::from(r.pick(&ut.variants).2)),
                    _ => Some(r.below(256) as u64),
                };
            }
            if r.below(32) < chance {
                val = None;
            }
            f.push(d.map(|d| Val::S(Sc::new(ST::U8, d))));
            f.push(val);
        } else {
            f.push(x.as_ref().map(|x| v(r, env, raw, &fd.ty, x, chance)));
        }
    }
    Arc::new(TVal { ty: t.ty, f })
}

// C16, the functions of the enums
fn enum_fns(st: &mut model::run::Stats, r: &mut Rng, what: &str, base: ST, vars: &[(String, i128)], f: &EnumFns) -> V {
    for (k, (name, v)) in vars.iter().enumerate() {
        let want = Sc::int(base, *v);
        let to = (f.to)(k);
        if to != want {
            return Err(format!("{}::{} converts to {:?}, the schema says {}", what, name, to, v));
        }
        let cast = (f.cast)(k);
        if cast != want {
            return Err(format!("{}::{} has discriminant {:?}, the schema says {}", what, name, cast, v));
        }
        if (f.name)(k) != fix(name) {
            return Err(format!("{}::{} has the name {:?}", what, name, (f.name)(k)));
        }
        st.count("variants", 1);
    }
    if (f.default)() != 0 {
        return Err(format!("the default of {} is variant number {}", what, (f.default)()));
    }
    let judge = |s: Sc| -> V {
        let want = vars.iter().position(|v| v.1 == s.as_int());
        match ((f.from)(s), want) {
            (Ok(k), Some(w)) if k == w => Ok(()),
            (Err(Error::UnknownEnumVariant), None) => Ok(()),
            (g, w) => Err(format!("{} from {:?} gives {:?}, the schema says {:?}", what, s, g, w)),
        }
    };
    let mut n = 0;
    if base.size() <= 2 {
        for b in 0..1u64 << (8 * base.size()) {
            judge(Sc::new(base, b))?;
            n += 1;
        }
    } else {
        for (_, v) in vars {
            for d in -2..=2 {
                judge(Sc::new(base, (*v + d) as u64))?;
            }
            for k in 0..base.size() * 8 {
                judge(Sc::new(base, *v as u64 ^ 1 << k))?;
            }
            n += 5 + base.size() as u64 * 8;
        }
        for _ in 0..500 {
            let s = rand_scalar(r, base);
            judge(s)?;
        }
        for b in 0..300 {
            judge(Sc::new(base, b))?;
        }
        n += 800;
    }
    st.count("conversions", n);
    Ok(())
}

fn discriminants(c: &mut Case, s: &Sfn, env: &Env, raw: &Env) -> V {
    if c.n == 0 {
        for (e, f) in env.enums.iter().zip(s.enums) {
            let vars: Vec<(String, i128)> = e.variants.iter().map(|v| (v.0.clone(), v.2)).collect();
            enum_fns(c.st, &mut c.r, &e.name, e.base, &vars, f)?;
        }
        for (u, f) in env.unions.iter().zip(s.utypes) {
            let mut vars = vec![("None".to_string(), 0)];
            vars.extend(u.variants.iter().map(|v| (env.tables[v.0].name.clone(), i128::from(v.2))));
            enum_fns(c.st, &mut c.r, &format!("the type of {}", u.name), ST::U8, &vars, f)?;
        }
        return Ok(());
    }
    if c.n <= 256 {
        // every discriminant in every union field
        for ty in 0..env.tables.len() {
            for (k, f) in env.tables[ty].fields.iter().enumerate() {
                if !matches!(f.ty, Ty::Union(_)) {
                    continue;
                }
                let mut g = VGen::new(&mut c.r, env, 20, false);
                g.fill = 2;
                let mut t = (*g.table(ty, 0)).clone();
                if t.f[k].is_none() {
                    t.f[k] = VGen::new(&mut c.r, env, 4, false).val(&f.ty, 1);
                }
                let mut rv = (*raw_value(&mut c.r, env, raw, &t, 0)).clone();
                let at = raw.tables[ty].fields.iter().position(|x| x.slot == f.slot).expect("harness: slot");
                rv.f[at] = Some(Val::S(Sc::new(ST::U8, c.n - 1)));
                let rv = Arc::new(rv);
                let b = encode(&mut c.r, raw, &rv, &EncOpts::default());
                judge_bytes(c, s, env, ty, &b)?;
                c.st.count("union_discriminants", 1);
                c.st.evaluations += 1;
            }
        }
        return Ok(());
    }
    let ty = c.r.below(env.tables.len());
    if c.r.chance(1, 4) {
        // the generated writer stores the discriminants of the schema
        return wire(c, s, env);
    }
    let t = value(&mut c.r, env, ty, false);
    let rv = raw_value(&mut c.r, env, raw, &t, 8);
    let b = encode(&mut c.r, raw, &rv, &EncOpts::default());
    judge_bytes(c, s, env, ty, &b)
}

/// Reads any bytes and holds the answers against what they designate.
fn judge_bytes(c: &mut Case, s: &Sfn, env: &Env, ty: usize, b: &[u8]) -> V {
    let o = read(&mut c.r, s, ty, b, 400);
    let mut l = Lenient::new(env, b);
    let res = l.root(ty, &o);
    c.st.count("judged.values", l.n[0]);
    c.st.count("judged.absent", l.n[1]);
    c.st.count("judged.errors", l.n[2]);
    if l.n[0] + l.n[1] > 0 {
        c.st.seen(b);
    }
    res.map_err(|m| format!("{} read from bytes {}: {}", env.tables[ty].name, hex(b), m))
}

// C17
fn required(c: &mut Case, s: &Sfn, env: &Env, raw: &Env) -> V {
    let ty = c.r.below(env.tables.len());
    if c.r.chance(1, 12) {
        // a builder to which nothing was added
        let mut fbb = FlatBufferBuilder::new();
        let got = model::run::guard(|| {
            let o = (s.empty[ty])(&mut fbb);
            fbb.finish_minimal(butte::WIPOffset::<()>::new(o));
        });
        let needs = env.tables[ty].fields.iter().any(|f| f.required);
        c.st.count(if needs { "finished_empty.refused" } else { "finished_empty.allowed" }, 1);
        return match got {
            Err(_) if needs => Ok(()),
            Err(e) => Err(format!("finishing an empty {}, which has no required fields: {}", env.tables[ty].name, e)),
            Ok(()) if needs => Err(format!("{} was finished without its required fields", env.tables[ty].name)),
            Ok(()) => {
                let b = fbb.finished_data().to_vec();
                c.st.seen(&b);
                judge_bytes(c, s, env, ty, &b)
            }
        };
    }
    if c.r.chance(1, 3) {
        // the writer satisfies its own required fields
        let mut t = (*value(&mut c.r, env, ty, false)).clone();
        for (f, x) in env.tables[ty].fields.iter().zip(&mut t.f) {
            if f.required && !f.ty.is_ref() {
                if let Some(d) = f.default {
                    if c.r.chance(2, 3) {
                        *x = Some(Val::S(d));
                        c.st.count("required_scalars_at_default", 1);
                    }
                }
            }
        }
        let t = Arc::new(t);
        let b = build(&mut c.r, s, env, &t);
        let o = read(&mut c.r, s, ty, &b, 10_000);
        c.st.seen(&b);
        return ctx(judge::table(env, By::Generated, &t, &o), &b, &t);
    }
    // leave out fields, required or not
    fn prune(c: &mut Case, env: &Env, t: &TVal) -> Arc<TVal> {
        fn v(c: &mut Case, env: &Env, x: &Val) -> Val {
            match x {
                Val::Tab(t) => Val::Tab(prune(c, env, t)),
                Val::Un(k, t) => Val::Un(*k, prune(c, env, t)),
                Val::Vec(xs) => Val::Vec(Arc::new(xs.iter().map(|x| v(c, env, x)).collect())),
                x => x.clone(),
            }
        }
        let f = env.tables[t.ty].fields.iter().zip(&t.f).map(|(f, x)| {
            if x.is_some() && c.r.chance(1, 4) {
                c.st.count(if f.required { "left_out.required" } else { "left_out.optional" }, 1);
                None
            } else {
                x.as_ref().map(|x| v(c, env, x))
            }
        });
        let f = f.collect();
        Arc::new(TVal { ty: t.ty, f })
    }
    let t = value(&mut c.r, env, ty, false);
    let t = prune(c, env, &t);
    // unions of which only one half is there
    let ch = *c.r.pick(&[0, 0, 4]);
    let rv = raw_value(&mut c.r, env, raw, &t, ch);
    let b = encode(&mut c.r, raw, &rv, &EncOpts::default());
    judge_bytes(c, s, env, ty, &b)
}

// C24
fn any_bytes(c: &mut Case, s: &Sfn, env: &Env, raw: &Env) -> V {
    let ty = c.r.below(env.tables.len());
    let mut b = match c.r.below(8) {
        0 => {
            let n = c.r.small(40, 200);
            let hi = *c.r.pick(&[4, 16, 64, 256]);
            (0..n).map(|_| c.r.below(hi) as u8).collect()
        }
        1 | 2 => {
            let t = value(&mut c.r, env, ty, true);
            build(&mut c.r, s, env, &t)
        }
        _ => {
            let t = value(&mut c.r, env, ty, true);
            let ch = c.r.below(6);
            let rv = raw_value(&mut c.r, env, raw, &t, ch);
            let mut o = enc_opts(&mut c.r);
            o.keep_defaults = true;
            encode(&mut c.r, raw, &rv, &o)
        }
    };
    if c.r.chance(9, 10) {
        mutate(&mut c.r, &mut b);
    }
    judge_bytes(c, s, env, ty, &b)
}

// C25
fn evolution(c: &mut Case, old: &Sfn, new: &Sfn, eo: &Env, en: &Env) -> V {
    let ty = c.r.below(eo.tables.len());
    let fwd = c.r.bool();
    let (w, ew, rd, er) = if fwd { (new, en, old, eo) } else { (old, eo, new, en) };
    let share = c.r.bool();
    let t = value(&mut c.r, ew, ty, share);
    let (b, by) = if c.r.chance(3, 4) {
        (build(&mut c.r, w, ew, &t), By::Generated)
    } else {
        // slots the writer's schema lacks belong to the newer schema
        let o = EncOpts { unknown_fields: false, ..enc_opts(&mut c.r) };
        (encode(&mut c.r, ew, &t, &o), By::Encoder)
    };
    let o = read(&mut c.r, rd, ty, &b, 100_000);
    c.st.count(if fwd { "old_reads_new" } else { "new_reads_old" }, 1);
    c.st.count("values", nodes(&t));
    c.st.seen(&b);
    ctx(judge::table(er, by, &t, &o), &b, &t).map_err(|m| format!("{}: {}", if fwd { "old code reading a new buffer" } else { "new code reading an old buffer" }, m))
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C13" => "distinct finished buffers built by generated code from values with at least one field, read back and judged against the value",
        "C14" => "distinct buffers: those written by generated code judged by the independent decoder, those of the independent encoder read by generated code",
        "C15" => "distinct buffers of tables whose scalars are at, next to or away from their declared defaults, judged for what is stored and what is read",
        "C16" => "distinct buffers with defined and undefined discriminants, plus every enum conversion (all values of 8- and 16-bit bases)",
        "C17" => "distinct buffers with required and optional fields left out, and written by the generated writer with required scalars at their defaults",
        "C18" => "distinct buffers of the types references resolve to, in schemas with several namespaces in random order",
        "C24" => "distinct byte sequences of which the generated accessors read at least one value or absence, judged against the lenient decoder",
        "C25" => "distinct buffers written by one version of a schema and read by the code of the other",
        _ => "",
    }
}

pub fn main(sfns: &[Sfn]) {
    let o = Opts::parse();
    let (prop, cases, seed) = (o.prop.clone(), o.cases, o.seed);
    let ss: u64 = o.get("sseed").map_or(seed, |x| x.parse().expect("sseed"));
    let mut rep = Report::new(o, rule(&prop));
    let mut i = 0;
    while i < sfns.len() {
        let s = &sfns[i];
        let vs: Vec<Schema> = for_prop(&prop, ss, s.idx);
        let env = &vs[0].env;
        let raw = raw_env(env);
        let stream = format!("s{}", s.idx);
        rep.stats.count("schemas", 1);
        rep.stats.count("tables", env.tables.len() as u64);
        match &prop[..] {
            "C13" => rep.run(&stream, cases, |c| round_trip(c, s, env)),
            "C14" => rep.run(&stream, cases, |c| wire(c, s, env)),
            "C15" => rep.run(&stream, cases, |c| defaults(c, s, env)),
            "C16" => rep.run(&stream, cases.max(300), |c| discriminants(c, s, env, &raw)),
            "C17" => rep.run(&stream, cases, |c| required(c, s, env, &raw)),
            "C18" => rep.run(&stream, cases, |c| if c.n % 2 == 0 { round_trip(c, s, env) } else { wire(c, s, env) }),
            "C24" => rep.run(&stream, cases, |c| any_bytes(c, s, env, &raw)),
            "C25" => {
                let n = &sfns[i + 1];
                assert!(s.idx == n.idx && s.ver == 0 && n.ver == 1, "harness: versions");
                rep.run(&stream, cases, |c| evolution(c, s, n, env, &vs[1].env));
                i += 1;
            }
            p => panic!("harness: property {}", p),
        }
        // one stream per schema would make the list of counts very long
        let k = format!("cases.{}", stream);
        if let Some(n) = rep.stats.counts.remove(&k) {
            rep.stats.count("cases", n);
        }
        i += 1;
    }
    rep.finish()
}
