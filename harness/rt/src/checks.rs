use crate::cmp::Cmp;
use crate::diff::Diff;
use crate::prog::*;
use crate::sut::*;
use crate::with_st;
use butte::*;
use model::dec::{Exp, Len, Strict};
use model::enc::{encode, EncOpts};
use model::gen::{mutate, rand_env, VGen};
use model::run::{guard, Case, Opts, Report};
use model::*;
use std::collections::HashMap;
use std::sync::Arc;

type V = Result<(), String>;
type Fbb = FlatBufferBuilder<'static>;

fn rand_cap(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(8),
        3 => r.below(64),
        4 => 1 << r.below(13),
        5 => (1 << r.below(13)) - 1,
        _ => r.below(5000),
    }
}

fn budget(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 1,
        1 => if cfg!(miri) { 20 } else { 300 },
        _ => r.range(2, if cfg!(miri) { 12 } else { 60 }),
    }
}

/// Builds the program on `b` and returns the finished bytes and offsets.
fn build(p: &Prog, b: &mut Fbb) -> (Vec<u8>, Run) {
    let run = p.build(b);
    p.finish(b, &run.offs);
    (b.finished_data().to_vec(), run)
}

fn with_prog(p: &Prog, m: String) -> String {
    format!("{} || program: {}", m, p.describe())
}

fn note_prog(c: &mut Case, p: &Prog, bytes: &[u8]) {
    c.st.count("objects built", p.ops.len() as u64);
    c.st.count("bytes finished", bytes.len() as u64);
    if p.wire_root().f.iter().any(|f| f.is_some()) {
        c.st.seen(bytes);
        c.st.sample(|| format!("case {}: {} -> {}", c.n, p.describe(), hex(&bytes[..bytes.len().min(200)])));
    }
}

// C01 ---------------------------------------------------------------------
/// Rarely, puts so much between the objects that offsets need all their bytes.
fn inflate(c: &mut Case, p: &mut Prog) {
    if c.r.chance(1, 30_000) && !cfg!(miri) {
        let n = c.r.range(16_700_000, 18_000_000);
        let at = c.r.below(p.ops.len());
        p.ops.insert(at, Op { ty: Ty::Bytes, val: Val::Bytes(Arc::new(vec![c.r.u64() as u8; n])), how: 0, order: vec![], junk: true });
        c.st.count("programs of more than 16 MiB", 1);
    }
}

/// One object far larger than the random programs contain, between two small ones.
fn c01_large(c: &mut Case) -> V {
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    let a = b.create_string("before");
    let kind = c.r.below(6);
    let n = if kind < 2 { c.r.range(16_000, 80_000) } else { c.r.range(16_700_000, 17_500_000) };
    let seed = c.r.u64();
    let byte = |i: usize| -> u8 { ((i as u64).wrapping_mul(seed | 1) >> 29) as u8 };
    let text = |i: usize| -> String { format!("{}{}", i, &"abcdefghijkl"[..i % 12]) };
    c.st.count("objects of more than 16,000 elements or 16 MiB", 1);
    let res = guard(|| -> V {
        let bytes: Vec<u8> = if kind < 2 { vec![] } else { (0..n).map(byte).collect() };
        let big: WIPOffset<()> = WIPOffset::new(match kind {
            0 => {
                let s: Vec<String> = (0..n).map(text).collect();
                let r: Vec<&str> = s.iter().map(|s| &s[..]).collect();
                b.create_vector_of_strings(&r).value()
            }
            1 => {
                let o: Vec<WIPOffset<&str>> = (0..n).map(|i| b.create_string(&text(i))).collect();
                b.create_vector(&o).value()
            }
            2 => b.create_vector::<u8>(&bytes).value(),
            3 => b.create_vector_direct::<u8>(&bytes).value(),
            4 => {
                b.start_vector::<u8>(n);
                for x in bytes.iter().rev() {
                    b.push::<u8>(*x);
                }
                b.end_vector::<u8>(n).value()
            }
            _ => b.create_byte_string(&bytes).value(),
        });
        let z = b.create_string("after");
        let t = b.start_table();
        b.push_slot_always(4, a);
        b.push_slot_always(6, big);
        b.push_slot_always(8, z);
        let t = b.end_table(t);
        b.finish_minimal(t);
        let data = b.finished_data();
        let e = |e: Error| format!("{:?}", e);
        let t = Table::get_root(data).map_err(e)?;
        for (slot, want) in [(4u16, "before"), (8, "after")] {
            if t.get::<ForwardsUOffset<&str>>(slot, None).map_err(e)? != Some(want) {
                return Err(format!("the string in slot {} changed", slot));
            }
        }
        if kind < 2 {
            let v = t.get::<ForwardsUOffset<Vector<'_, ForwardsUOffset<&str>>>>(6, None).map_err(e)?.ok_or("the vector is gone")?;
            if v.len().map_err(e)? != n {
                return Err(format!("length {:?}", v.len()));
            }
            for i in 0..n {
                if v.get(i).map_err(|x| format!("string {}: {:?}", i, x))? != text(i) {
                    return Err(format!("string {} reads {:?}", i, v.get(i)));
                }
            }
            if !v.iter().enumerate().all(|(i, x)| x.map(|x| x == text(i)).unwrap_or(false)) {
                return Err("iteration disagrees".into());
            }
        } else {
            let v = t.get::<ForwardsUOffset<Vector<'_, u8>>>(6, None).map_err(e)?.ok_or("the vector is gone")?;
            let s = v.safe_slice().map_err(e)?;
            if s != &bytes[..] {
                return Err(format!("length {} instead of {}, or other contents", s.len(), n));
            }
            if kind == 5 && data.get(s.as_ptr() as usize - data.as_ptr() as usize + n) != Some(&0) {
                return Err("no terminator".into());
            }
        }
        Ok(())
    });
    let res = match res {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    };
    res.map_err(|m| format!("large object of kind {} and size {}: {}", kind, n, m))
}

fn c01(c: &mut Case) -> V {
    if c.r.chance(1, 60_000) && !cfg!(miri) {
        return c01_large(c);
    }
    let n = budget(&mut c.r);
    let mut p = Prog::gen(&mut c.r, n);
    inflate(c, &mut p);
    let mut b: Fbb = match c.r.below(6) {
        0 => FlatBufferBuilder::new(),
        1 => FlatBufferBuilder::default(),
        _ => FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r)),
    };
    let res = guard(|| build(&p, &mut b));
    let (bytes, _run) = res.map_err(|m| with_prog(&p, format!("legal build panicked: {}", m)))?;
    let want = p.wire_root();
    let (vec, head) = b.collapse();
    if vec[head..] != bytes[..] {
        return Err(with_prog(&p, "collapse disagrees with finished_data".into()));
    }
    let mut cmp = Cmp::new(&p.env);
    let mode = c.r.below(5);
    let sp = p.size_prefix;
    let at = At::new(&bytes, c.r.below(16));
    let res = guard(|| -> V {
        let err = |e: Error| format!("root: {:?}", e);
        match mode {
            0 => {
                let t = if sp { Table::get_size_prefixed_root(bytes.clone()) } else { Table::get_root(bytes.clone()) }.map_err(err)?;
                cmp.table(&t, &want)
            }
            1 => {
                let x: Arc<[u8]> = bytes.clone().into();
                let t = if sp { get_size_prefixed_root::<Table<Arc<[u8]>>, _>(x) } else { get_root::<Table<Arc<[u8]>>, _>(x) }.map_err(err)?;
                cmp.table(&t, &want)
            }
            2 => {
                let x = std::borrow::Cow::Borrowed(&bytes[..]);
                let t = if sp { Table::get_size_prefixed_root(x) } else { Table::get_root(x) }.map_err(err)?;
                cmp.table(&t, &want)
            }
            _ => {
                let x = at.get();
                let t = if sp { Table::get_size_prefixed_root(x) } else { Table::get_root(x) }.map_err(err)?;
                cmp.table(&t, &want)
            }
        }
    });
    let res = match res {
        Ok(r) => r,
        Err(m) => Err(format!("panic while reading: {}", m)),
    };
    c.st.count("values read back", cmp.reads);
    res.map_err(|m| with_prog(&p, m))?;
    note_prog(c, &p, &bytes);
    Ok(())
}

// C02 ---------------------------------------------------------------------
fn judge_strict(p: &Prog, bytes: &[u8], run: &Run, st: &mut model::run::Stats) -> Result<usize, String> {
    let mut s = Strict::new(bytes, &p.env);
    let vals: Vec<(Ty, Val, usize)> = run.log.iter().map(|(t, v, o)| (t.clone(), p.wire_of(v), *o as usize)).collect();
    let root = s.header(p.size_prefix, p.ident.as_ref().map(|x| x.as_bytes()))?;
    let ro = run.offs[&(Arc::as_ptr(&p.root) as usize)] as usize;
    if root != bytes.len() - ro {
        return Err(format!("root offset leads to {}, the root was written at {}", root, bytes.len() - ro));
    }
    s.table(root, &p.wire_root())?;
    for (t, v, o) in &vals {
        if *o > bytes.len() {
            return Err("object offset past the buffer".into());
        }
        s.object(bytes.len() - o, t, v)?;
    }
    s.finish(p.max_align)?;
    let n = s.distinct_vtables()?;
    st.count("objects judged", s.objects as u64);
    st.count("tables judged", s.tables as u64);
    st.count("vtables judged", n as u64);
    Ok(n)
}

fn c02(c: &mut Case) -> V {
    let n = budget(&mut c.r);
    let mut p = Prog::gen(&mut c.r, n);
    inflate(c, &mut p);
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    // half the time on a builder that was used before
    if c.r.bool() {
        let q = Prog::gen(&mut c.r, 10);
        build(&q, &mut b);
        b.reset();
    }
    let (bytes, run) = build(&p, &mut b);
    judge_strict(&p, &bytes, &run, c.st).map_err(|m| with_prog(&p, format!("{} in {}", m, hex(&bytes))))?;
    note_prog(c, &p, &bytes);
    Ok(())
}


/// A small buffer whose every part is chosen to be borderline.
fn crafted(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 40);
    let mut b: Vec<u8> = (0..n).map(|_| if r.chance(2, 3) { r.below(12) as u8 } else { r.u64() as u8 }).collect();
    if n >= 4 && r.chance(3, 4) {
        let root = r.below(n + 3) as u32;
        b[0..4].copy_from_slice(&root.to_le_bytes());
        let root = root as usize;
        if root + 4 <= n {
            let so = (root as i64 - r.below(n + 2) as i64 + if r.chance(1, 6) { -(n as i64) } else { 0 }) as i32;
            b[root..root + 4].copy_from_slice(&so.to_le_bytes());
            let vt = root as i64 - i64::from(so);
            if vt >= 0 && vt as usize + 2 <= n && r.chance(2, 3) {
                let vt = vt as usize;
                let len = (r.below(20) as u16) & !u16::from(r.chance(5, 6));
                b[vt..vt + 2].copy_from_slice(&len.to_le_bytes());
            }
        }
    }
    b
}

fn gen_bytes(r: &mut Rng, env: &Env) -> (Vec<u8>, usize) {
    let ty = r.below(env.tables.len());
    let mut bytes = match r.below(8) {
        0 => {
            let n = r.below(64);
            (0..n).map(|_| r.u64() as u8).collect()
        }
        1 | 2 => crafted(r),
        k => {
            let mut g = VGen::new(r, env, 20, true);
            g.fill = g.fill.max(4);
            let t = g.table(ty, 0);
            let o = EncOpts { size_prefix: r.chance(1, 4), ident: None, keep_defaults: r.bool(), unknown_fields: r.bool() };
            let mut b = encode(r, env, &t, &o);
            if k != 3 {
                mutate(r, &mut b);
            }
            b
        }
    };
    bytes.truncate(1 << 16);
    (bytes, ty)
}

fn c03(c: &mut Case) -> V {
    let env = rand_env(&mut c.r);
    let (bytes, ty) = gen_bytes(&mut c.r, &env);
    let at = At::new(&bytes, c.r.below(16));
    let mut d = Diff::new(&env, at.get());
    let mut r = Rng::new(c.r.u64());
    let res = guard(|| -> V {
        d.roots(ty)?;
        let n = bytes.len();
        for _ in 0..3 {
            let loc = match r.below(8) {
                0 => n,
                1 => n + r.below(9),
                2 => (1u64 << 33).min(usize::MAX as u64 / 2) as usize,
                3 => n.saturating_sub(r.below(9)),
                _ => r.below(n + 1),
            };
            let mut q = r.clone();
            d.probe(if cfg!(target_pointer_width = "32") { loc.min(1 << 20) } else { loc }, &mut q).map_err(|m| format!("at {}: {}", loc, m))?;
        }
        Ok(())
    });
    let res = match res {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    };
    c.st.count("reads answered with a value", d.ok);
    c.st.count("reads answered with an error", d.err);
    c.st.count("reads the format leaves open", d.any);
    res.map_err(|m| format!("{} || address offset {} bytes {}", m, at.get().as_ptr() as usize % 16, hex(&bytes)))?;
    if d.ok > 10 && d.err > 0 {
        c.st.seen(&bytes);
        c.st.sample(|| format!("case {}: {}", c.n, hex(&bytes[..bytes.len().min(200)])));
    }
    Ok(())
}

// C05 ---------------------------------------------------------------------
/// Something done to a builder before it is reset.
fn dirty(r: &mut Rng, b: &mut Fbb) {
    let n = r.range(1, if cfg!(miri) { 4 } else { 20 });
    let q = Prog::gen(r, n);
    let mut offs = HashMap::new();
    let upto = r.below(q.ops.len() + 1);
    if r.chance(1, 40) && !cfg!(miri) {
        let n = r.range(3000, 300_000);
        b.create_vector_direct(&vec![0x5au8 | r.u64() as u8; n]);
    }
    for i in 0..upto {
        q.step(b, i, &mut offs);
    }
    match r.below(7) {
        0 => {
            if upto == q.ops.len() {
                q.finish(b, &offs);
            }
        }
        1 => {
            b.start_table();
            for k in 0..r.below(5) {
                b.push_slot_always::<u64>(4 + 2 * k as u16, r.u64());
            }
        }
        2 => {
            b.start_vector::<u32>(r.below(6));
            for _ in 0..r.below(5) {
                b.push::<u32>(r.u32());
            }
        }
        3 => {
            b.push::<u8>(0xaa);
        }
        4 => {
            b.push::<St4>(St4([0xbb; 32]));
        }
        _ => {}
    }
}

/// Illegal calls (refused in builds with debug assertions), on a builder in any state.
fn refused(r: &mut Rng, b: &mut Fbb) -> bool {
    if !cfg!(debug_assertions) {
        return false;
    }
    guard(|| match r.below(8) {
        0 => {
            b.start_table();
            b.start_table();
        }
        1 => {
            b.start_vector::<u64>(r.below(9));
            b.start_table();
        }
        2 => {
            b.end_vector::<u16>(r.below(9));
            b.end_vector::<u16>(r.below(9));
        }
        3 => {
            let o = b.create_string("refused");
            b.finish(o, Some("five!"));
            b.finish(o, Some("five!"));
        }
        4 => {
            b.push_slot_always::<u64>(8, r.u64());
            b.push_slot_always::<u64>(8, r.u64());
            let o = WIPOffset::new(b.unfinished_data().len() as u32);
            b.end_table(o);
        }
        5 => {
            let t = b.start_table();
            b.push_slot_always::<u16>(6, 7);
            b.push_slot_always::<u8>(6, 7);
            b.end_table(t);
        }
        6 => {
            let t = b.start_table();
            b.push_slot_always::<u16>(6, 7);
            let o = b.end_table(t);
            b.required(o, 4, "no such");
        }
        _ => {
            b.create_byte_string(&[r.u64() as u8; 3]);
            let n = b.finished_data().len();
            assert!(n > 1 << 31);
        }
    })
    .is_err()
}

/// One raw call of a build.
#[derive(Debug, Clone)]
enum Ev {
    Str(Vec<u8>),
    StartTab,
    Slot(u16, Sc, Option<Sc>),
    Off(u16, usize),
    EndTab,
    StartVec(ST, usize),
    El(Sc),
    EndVec(ST, usize),
}

fn rand_events(r: &mut Rng) -> Vec<Ev> {
    let mut ev = vec![Ev::Str(vec![b'r'; 3])];
    let mut objects = 1;
    for _ in 0..r.range(1, if cfg!(miri) { 4 } else { 12 }) {
        match r.below(4) {
            0 => {
                let n = r.below(30);
                ev.push(Ev::Str((0..n).map(|_| 1 + r.below(127) as u8).collect()));
            }
            1 => {
                let st = *r.pick(&ALL_ST);
                let n = r.below(9);
                ev.push(Ev::StartVec(st, n));
                for _ in 0..n {
                    ev.push(Ev::El(rand_scalar(r, st)));
                }
                ev.push(Ev::EndVec(st, n));
            }
            _ => {
                ev.push(Ev::StartTab);
                let mut slots: Vec<u16> = (0..10).map(|k| 4 + 2 * k).collect();
                for _ in 0..r.below(8) {
                    let slot = slots.remove(r.below(slots.len()));
                    if r.chance(1, 4) {
                        ev.push(Ev::Off(slot, r.below(objects)));
                    } else {
                        let st = *r.pick(&ALL_ST);
                        let v = rand_scalar(r, st);
                        let d = match r.below(3) {
                            0 => None,
                            1 => Some(v),
                            _ => Some(Sc::zero(st)),
                        };
                        ev.push(Ev::Slot(slot, v, d));
                    }
                }
                ev.push(Ev::EndTab);
            }
        }
        objects += 1;
    }
    ev.push(Ev::StartTab);
    ev.push(Ev::Slot(4, Sc::new(ST::U8, 1), None));
    ev.push(Ev::EndTab);
    ev
}

#[derive(Clone, Default)]
struct EvState {
    objs: Vec<u32>,
    open: u32,
}

fn ev_step(b: &mut Fbb, s: &mut EvState, e: &Ev) {
    match e {
        Ev::Str(x) => s.objs.push(b.create_byte_string(x).value()),
        Ev::StartTab => s.open = b.start_table().value(),
        Ev::Slot(slot, v, None) => with_st!(v.t, T => b.push_slot_always::<T>(*slot, <T as ToSc>::of(*v))),
        Ev::Slot(slot, v, Some(d)) => with_st!(v.t, T => b.push_slot::<T>(*slot, <T as ToSc>::of(*v), <T as ToSc>::of(*d))),
        Ev::Off(slot, k) => b.push_slot_always::<WIPOffset<&str>>(*slot, WIPOffset::new(s.objs[*k])),
        Ev::EndTab => {
            let o = b.end_table(WIPOffset::new(s.open)).value();
            s.objs.push(o)
        }
        Ev::StartVec(st, n) => with_st!(*st, T => b.start_vector::<T>(*n)),
        Ev::El(v) => with_st!(v.t, T => { b.push::<T>(<T as ToSc>::of(*v)); }),
        Ev::EndVec(st, n) => s.objs.push(with_st!(*st, T => b.end_vector::<T>(*n).value())),
    }
}

/// Clones, resets and growth in the middle of a table or vector, and resets
/// after refused calls.
fn c05_open(c: &mut Case) -> V {
    let ev = rand_events(&mut c.r);
    let framing = c.r.below(4);
    let end = |b: &mut Fbb, s: &EvState| {
        let root: WIPOffset<Table<&[u8]>> = WIPOffset::new(s.objs[s.objs.len() - 1]);
        match framing {
            0 => b.finish_minimal(root),
            1 => b.finish(root, Some("IDNT")),
            2 => b.finish_size_prefixed(root, None),
            _ => b.finish_size_prefixed(root, Some("IDNT")),
        }
    };
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(1 << 13);
    let mut s = EvState::default();
    for e in &ev {
        ev_step(&mut b, &mut s, e);
    }
    end(&mut b, &s);
    let want = b.finished_data().to_vec();
    for _ in 0..if cfg!(miri) { 2 } else { 4 } {
        let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
        let mut hist = String::new();
        for _ in 0..c.r.below(3) {
            let mut r = Rng::new(c.r.u64());
            let st = &mut EvState::default();
            for e in ev.iter().take(r.below(ev.len())) {
                ev_step(&mut b, st, e);
            }
            for _ in 0..r.below(3) {
                if refused(&mut r, &mut b) {
                    c.st.count("refused calls before a reset", 1);
                }
            }
            b.reset();
            hist.push_str("used and reset, ");
            c.st.count("resets", 1);
            if !b.unfinished_data().is_empty() || b.num_written_vtables() != 0 {
                return Err("builder not empty after reset".into());
            }
        }
        let mut s = EvState::default();
        for (i, e) in ev.iter().enumerate() {
            if c.r.chance(1, 6) {
                hist.push_str(&format!("cloned before {}, ", i));
                c.st.count(if i > 0 && !matches!(ev[i - 1], Ev::Str(_) | Ev::EndTab | Ev::EndVec(..)) { "clones of open builders" } else { "clones" }, 1);
                let mut cl = b.clone();
                if c.r.bool() {
                    std::mem::swap(&mut cl, &mut b);
                }
                // what happens to the other one makes no difference
                match c.r.below(3) {
                    0 => cl.reset(),
                    1 => {
                        let mut r = Rng::new(c.r.u64());
                        let mut s = s.clone();
                        for e in ev[i..].iter().take(r.below(ev.len())) {
                            ev_step(&mut cl, &mut s, e);
                        }
                    }
                    _ => {
                        let mut s = s.clone();
                        for e in ev[i..].iter() {
                            ev_step(&mut cl, &mut s, e);
                        }
                        end(&mut cl, &s);
                        if cl.finished_data() != &want[..] {
                            return Err(format!("({}): the other copy's bytes differ: {} expected {}\n{:?}", hist, hex(cl.finished_data()), hex(&want), ev));
                        }
                    }
                }
            }
            ev_step(&mut b, &mut s, e);
        }
        end(&mut b, &s);
        c.st.count("builders compared", 1);
        if b.finished_data() != &want[..] {
            return Err(format!("({}): finished bytes differ: {} expected {}\n{:?}", hist, hex(b.finished_data()), hex(&want), ev));
        }
    }
    c.st.seen(&want);
    Ok(())
}

fn c05(c: &mut Case) -> V {
    if c.n % 4 == 3 {
        return c05_open(c);
    }
    let n = budget(&mut c.r);
    let p = Prog::gen(&mut c.r, n);
    // reference: a fresh builder large enough never to grow
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(if cfg!(miri) { 1 << 12 } else { 1 << 17 });
    let mut steps: Vec<(Vec<u8>, usize)> = vec![];
    let mut offs = HashMap::new();
    for i in 0..p.ops.len() {
        p.step(&mut b, i, &mut offs);
        // every step only of small ones, see below
        let keep = b.unfinished_data().len() < 4000 || i + 1 == p.ops.len();
        steps.push((if keep { b.unfinished_data().to_vec() } else { vec![] }, b.num_written_vtables()));
    }
    p.finish(&mut b, &offs);
    let want = b.finished_data().to_vec();
    let check_all = c.r.chance(1, 4) && want.len() < 4000;
    for variant in 0..if cfg!(miri) { 1 } else { 3 } {
        let cap = match c.r.below(6) {
            0 => want.len(),
            1 => want.len().saturating_sub(1),
            2 => want.len() + 1,
            _ => rand_cap(&mut c.r),
        };
        let mut b: Fbb = FlatBufferBuilder::new_with_capacity(cap);
        let mut hist = format!("capacity {}", cap);
        for _ in 0..c.r.below(3) {
            let s = c.r.clone();
            let mut r = Rng::new(c.r.u64());
            guard(|| dirty(&mut r, &mut b)).map_err(|m| format!("history panicked: {} ({:?})", m, s))?;
            b.reset();
            hist.push_str(", used and reset");
            c.st.count("resets", 1);
            if !b.unfinished_data().is_empty() || b.num_written_vtables() != 0 {
                return Err("builder not empty after reset".into());
            }
        }
        let mut offs = HashMap::new();
        let mut other: Option<Fbb> = None;
        let clone_at = if c.r.bool() { Some(c.r.below(p.ops.len())) } else { None };
        let mut oth_offs = HashMap::new();
        for i in 0..p.ops.len() {
            if clone_at == Some(i) {
                hist.push_str(&format!(", cloned before step {}", i));
                other = Some(b.clone());
                oth_offs = offs.clone();
                c.st.count("clones", 1);
                if c.r.bool() {
                    // dirty the original and go on with the clone
                    let mut cl = b.clone();
                    std::mem::swap(&mut cl, &mut b);
                    let mut r = Rng::new(c.r.u64());
                    dirty(&mut r, &mut cl);
                }
            }
            p.step(&mut b, i, &mut offs);
            if check_all || i + 1 == p.ops.len() {
                if b.unfinished_data() != &steps[i].0[..] {
                    return Err(with_prog(&p, format!("variant {} ({}): bytes after step {} differ: {} expected {}", variant, hist, i, hex(b.unfinished_data()), hex(&steps[i].0))));
                }
                if b.num_written_vtables() != steps[i].1 {
                    return Err(with_prog(&p, format!("({}): vtable count after step {} differs", hist, i)));
                }
            }
        }
        p.finish(&mut b, &offs);
        c.st.count("builders compared", 1);
        if b.finished_data() != &want[..] {
            return Err(with_prog(&p, format!("({}): finished bytes differ: {} expected {}", hist, hex(b.finished_data()), hex(&want))));
        }
        if let Some(mut o) = other {
            for i in clone_at.unwrap()..p.ops.len() {
                p.step(&mut o, i, &mut oth_offs);
            }
            p.finish(&mut o, &oth_offs);
            c.st.count("builders compared", 1);
            if o.finished_data() != &want[..] {
                return Err(with_prog(&p, format!("({}): the clone's finished bytes differ", hist)));
            }
        }
    }
    note_prog(c, &p, &want);
    Ok(())
}

// C06 ---------------------------------------------------------------------
/// Hundreds of layouts in one buffer, each several times.
fn many_layouts(r: &mut Rng) -> Prog {
    let mut env = Env::default();
    let mut t0 = TableT::default();
    t0.fields.push(Field { name: String::new(), slot: 4, ty: Ty::vec(Ty::Tab(1)), default: None, required: false });
    env.tables.push(t0);
    let mut t = TableT::default();
    for k in 0..r.range(6, 14) as u16 {
        let st = *r.pick(&ALL_ST);
        t.fields.push(Field { name: String::new(), slot: 4 + 2 * k, ty: Ty::S(st), default: Some(Sc::zero(st)), required: false });
    }
    env.tables.push(t);
    let n = r.range(200, 1200);
    let some: Vec<Val> = (0..n)
        .map(|_| {
            let f = env.tables[1].fields.iter().map(|f| if r.bool() { f.default.map(|d| Val::S(if r.chance(1, 4) { d } else { rand_scalar(r, d.t) })) } else { None }).collect();
            Val::Tab(Arc::new(TVal { ty: 1, f }))
        })
        .collect();
    let root = Arc::new(TVal { ty: 0, f: vec![Some(Val::Vec(Arc::new(some)))] });
    Prog::of(r, env, root, vec![])
}

fn c06_env(r: &mut Rng) -> Env {
    let mut env = Env::default();
    let mut t0 = TableT::default();
    for k in 0..2 {
        t0.fields.push(Field { name: String::new(), slot: 4 + 2 * k, ty: Ty::vec(Ty::Tab(1 + k as usize)), default: None, required: false });
    }
    env.tables.push(t0);
    for _ in 0..2 {
        let mut t = TableT::default();
        let few: Vec<ST> = (0..r.range(1, 3)).map(|_| *r.pick(&ALL_ST)).collect();
        let top = if r.chance(1, 12) { 60 } else { 7 };
        let nf = r.range(0, top);
        let step = if r.chance(1, 8) { r.range(1, 120) } else { 1 };
        for k in 0..nf {
            let st = *r.pick(&few);
            let default = if r.chance(1, 3) { rand_scalar(r, st) } else { Sc::zero(st) };
            t.fields.push(Field { name: String::new(), slot: (4 + 2 * k * step) as u16, ty: Ty::S(st), default: Some(default), required: false });
        }
        env.tables.push(t);
    }
    env
}

/// Default-aware pushes of offsets: stored exactly when the offset differs.
fn c06_offsets(c: &mut Case) -> V {
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    for _ in 0..c.r.range(1, 4) {
        b.create_string(&"x".repeat(c.r.below(40)));
    }
    let s = b.create_string("target");
    let def = match c.r.below(3) {
        0 => s.value(),
        1 => s.value() ^ 1 << c.r.below(32),
        _ => c.r.u32(),
    };
    let t = b.start_table();
    b.push_slot::<WIPOffset<&str>>(4, s, WIPOffset::new(def));
    b.push_slot_always::<u8>(6, 1);
    let t = b.end_table(t);
    b.finish_minimal(t);
    let data = b.finished_data().to_vec();
    let got = Table::get_root(&data[..]).and_then(|t| t.get::<ForwardsUOffset<&str>>(4, None).map(|s| s.map(|s| s.to_string())));
    let want = if def == s.value() { None } else { Some("target".to_string()) };
    c.st.count("default-aware offsets", 1);
    if got != Ok(want) {
        return Err(format!("offset {} pushed with default {}: the field reads {:?}", s.value(), def, got));
    }
    Ok(())
}

fn c06(c: &mut Case) -> V {
    if c.r.chance(1, 40) {
        return c06_offsets(c);
    }
    let p = if c.r.chance(1, 4) {
        let n = budget(&mut c.r);
        Prog::gen(&mut c.r, n)
    } else if c.r.chance(1, 1500) && !cfg!(miri) {
        c.st.count("programs with hundreds of layouts", 1);
        many_layouts(&mut c.r)
    } else {
        let env = c06_env(&mut c.r);
        let mut p = Prog::gen_env(&mut c.r, env, 400);
        // keep field order the same per type most of the time, so layouts repeat
        if c.r.bool() {
            for o in &mut p.ops {
                o.order.sort_unstable();
            }
        }
        p
    };
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    let mut run = Run { offs: HashMap::new(), log: vec![] };
    let mut nums = vec![];
    for i in 0..p.ops.len() {
        let o = p.step(&mut b, i, &mut run.offs);
        run.log.push((p.ops[i].ty.clone(), p.ops[i].val.clone(), o));
        nums.push(b.num_written_vtables());
    }
    let before = b.num_written_vtables();
    p.finish(&mut b, &run.offs);
    let bytes = b.finished_data().to_vec();
    let n = judge_strict(&p, &bytes, &run, c.st).map_err(|m| with_prog(&p, format!("{} in {}", m, hex(&bytes))))?;
    if n != before {
        return Err(with_prog(&p, format!("builder reports {} vtables, the buffer uses {} distinct ones", before, n)));
    }
    // after each step: one vtable per distinct layout so far
    let mut seen: Vec<usize> = vec![];
    for (i, (t, _, o)) in run.log.iter().enumerate() {
        if let Ty::Tab(_) = t {
            let loc = bytes.len() - *o as usize;
            let so = i32::from_le_bytes([bytes[loc], bytes[loc + 1], bytes[loc + 2], bytes[loc + 3]]);
            let vt = (loc as i64 - i64::from(so)) as usize;
            if !seen.contains(&vt) {
                seen.push(vt);
            } else {
                c.st.count("tables sharing an earlier vtable", 1);
            }
        }
        if nums[i] != seen.len() {
            return Err(with_prog(&p, format!("after step {} the builder reports {} vtables, {} distinct layouts were written", i, nums[i], seen.len())));
        }
    }
    for o in &p.ops {
        if let Val::Tab(t) = &o.val {
            let w = &p.wire[&(Arc::as_ptr(t) as usize)];
            let el = o.order.iter().filter(|(k, _)| w.f[*k].is_none()).count();
            c.st.count("default-aware fields elided", el as u64);
            c.st.count("fields stored", (o.order.len() - el) as u64);
        }
    }
    note_prog(c, &p, &bytes);
    Ok(())
}

// C07 ---------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
enum Open {
    No,
    Table(Vec<u16>),
    Vector(usize),
}

/// Tables close to the largest a vtable can describe: up to 65535 bytes they
/// must be taken and described exactly, beyond that refused.
fn c07_wide(c: &mut Case) -> V {
    let r = &mut c.r;
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(r));
    for _ in 0..r.below(3) {
        b.create_string(&rand_string(r));
    }
    let at = b.unfinished_data().len();
    let t = b.start_table();
    let mut slot = 4u16;
    let goal = 65_536 - r.below(80) as usize + r.below(50) as usize;
    let size = |b: &Fbb| {
        let n = b.unfinished_data().len();
        n + (4 - n % 4) % 4 + 4 - at
    };
    while size(&b) < goal {
        let left = goal - size(&b);
        if left > 64 {
            b.push_slot_always(slot, St4([r.u64() as u8; 32]));
        } else if left > 8 && r.bool() {
            b.push_slot_always::<u64>(slot, r.u64());
        } else {
            b.push_slot_always::<u8>(slot, 7);
        }
        slot += 2;
    }
    let n = size(&b);
    if n > 65_535 {
        if cfg!(debug_assertions) {
            if guard(|| b.end_table(t)).is_ok() {
                return Err(format!("a table of {} bytes was not refused", n));
            }
            c.st.count("oversized tables refused", 1);
        }
        return Ok(());
    }
    let o = guard(|| b.end_table(t)).map_err(|m| format!("a table of {} bytes was refused: {}", n, m))?;
    b.finish_minimal(o);
    let x = b.finished_data();
    let loc = x.len() - o.value() as usize;
    let so = i32::from_le_bytes([x[loc], x[loc + 1], x[loc + 2], x[loc + 3]]);
    let vt = (loc as i64 - i64::from(so)) as usize;
    let (vl, ol) = (u16::from_le_bytes([x[vt], x[vt + 1]]), u16::from_le_bytes([x[vt + 2], x[vt + 3]]));
    if vl != slot || usize::from(ol) != n {
        return Err(format!("a table of {} bytes with a vtable of {} is described as {} and {}", n, slot, ol, vl));
    }
    c.st.count("wide tables", 1);
    Ok(())
}

/// A field stored twice, anywhere in a table of any size, next to one without.
fn c07_twice(c: &mut Case) -> V {
    let r = &mut c.r;
    let n = 1 + r.small(20, 80);
    let mut slots: Vec<u16> = (0..n as u16).map(|i| 4 + 2 * i).collect();
    r.shuffle(&mut slots);
    let twice = r.chance(2, 3) && cfg!(debug_assertions);
    if twice {
        let s = slots[r.below(n)];
        slots.insert(r.below(n + 1), s);
    }
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(r));
    for _ in 0..r.below(3) {
        b.create_string(&rand_string(r));
    }
    let t = b.start_table();
    let got = guard(|| {
        for s in &slots {
            match r.below(4) {
                0 => b.push_slot_always::<u8>(*s, 7),
                1 => b.push_slot_always::<u64>(*s, 7),
                2 => b.push_slot_always(*s, St4([7; 32])),
                _ => b.push_slot::<u32>(*s, 7, 8),
            }
        }
        b.end_table(t);
    });
    match got {
        Ok(()) if twice => Err(format!("a table storing a field twice was not refused: slots {:?}", slots)),
        Err(m) if !twice => Err(format!("a table storing each field once was refused: slots {:?}: {}", slots, m)),
        _ => {
            c.st.count(if twice { "fields stored twice" } else { "fields stored once" }, 1);
            c.st.seen(format!("{:?}", slots).as_bytes());
            Ok(())
        }
    }
}

fn c07(c: &mut Case) -> V {
    if c.r.chance(1, 3000) && !cfg!(miri) {
        return c07_wide(c);
    }
    if c.r.chance(1, 40) {
        return c07_twice(c);
    }
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    let mut open = Open::No;
    let mut finished = false;
    let mut dup = false;
    let mut start: Option<WIPOffset<TableUnfinishedWIPOffset>> = None;
    let mut objs: Vec<u32> = vec![];
    // finished tables and the slots they store
    let mut tabs: Vec<(u32, Vec<u16>)> = vec![];
    let mut trail = String::new();
    let r = &mut c.r;
    let mut refused = 0;
    let mut allowed = 0;
    let steps = if cfg!(miri) { 12 } else { r.range(5, 60) };
    let dbg = cfg!(debug_assertions);
    // must panic, tried on a copy
    macro_rules! bad {
        ($name:expr, $x:ident => $e:expr) => {{
            if dbg {
                let mut k = b.clone();
                let $x = &mut k;
                if guard(move || { let _ = $e; }).is_ok() {
                    return Err(format!("{} was not refused after [{}]", $name, trail));
                }
                refused += 1;
            }
        }};
    }
    macro_rules! good {
        ($name:expr, $x:ident => $e:expr) => {{
            let $x = &mut b;
            trail.push_str(&format!("{}; ", $name));
            allowed += 1;
            guard(|| $e).map_err(|m| format!("legal {} was refused ({}) after [{}]", $name, m, trail))?
        }};
    }
    for _ in 0..steps {
        let s = rand_string(r);
        if finished {
            match r.below(6) {
                0 => bad!("second finish", x => x.finish_minimal(WIPOffset::<Any>::new(4))),
                1 => bad!("second finish_size_prefixed", x => x.finish_size_prefixed(WIPOffset::<Any>::new(4), None)),
                2 => bad!("second finish with identifier", x => x.finish(WIPOffset::<Any>::new(4), Some("ABCD"))),
                3 => {
                    good!("finished_data", x => { x.finished_data().len() });
                }
                _ => {
                    good!("reset", x => x.reset());
                    finished = false;
                    objs.clear();
                    tabs.clear();
                    dup = false;
                }
            }
            continue;
        }
        bad_data(&b, dbg, &trail)?;
        match &mut open {
            Open::No => match r.below(14) {
                0 => objs.push(good!("create_string", x => x.create_string(&s).value())),
                1 => objs.push(good!("create_byte_string", x => x.create_byte_string(s.as_bytes()).value())),
                2 => objs.push(good!("create_vector_direct", x => x.create_vector_direct::<u8>(s.as_bytes()).value())),
                3 => objs.push(good!("create_vector", x => x.create_vector::<u64>(&[1, 2, 3]).value())),
                4 => objs.push(good!("create_vector_of_strings", x => x.create_vector_of_strings(&[&s[..], "x"]).value())),
                5 | 6 => {
                    start = Some(good!("start_table", x => x.start_table()));
                    open = Open::Table(vec![]);
                    dup = false;
                }
                7 => {
                    let n = r.below(5);
                    good!("start_vector", x => x.start_vector::<u32>(n));
                    open = Open::Vector(n);
                }
                8 => bad!("end_table with nothing open", x => x.end_table(WIPOffset::new(0))),
                9 => bad!("end_vector with nothing open", x => x.end_vector::<u32>(0)),
                10 => {
                    if r.bool() {
                        bad!("push_slot with nothing open", x => x.push_slot::<u32>(4, 1, 0));
                    } else {
                        // equal to the default, so nothing would be stored
                        bad!("push_slot of a default with nothing open", x => x.push_slot::<u32>(4, 1, 1));
                    }
                }
                11 => bad!("push_slot_always with nothing open", x => x.push_slot_always::<u8>(4, 1)),
                12 => {
                    if let Some((t, slots)) = tabs.last().cloned() {
                        let slot = 4 + 2 * r.below(8) as u16;
                        let o = WIPOffset::<TableFinishedWIPOffset>::new(t);
                        if slots.contains(&slot) {
                            good!("required of a stored field", x => x.required(o, slot, "f"));
                        } else {
                            let mut k = b.clone();
                            if guard(move || k.required(o, slot, "f")).is_ok() {
                                return Err(format!("required accepted missing slot {} (stored {:?}) after [{}]", slot, slots, trail));
                            }
                            refused += 1;
                        }
                    }
                }
                _ => {
                    for id in ["", "A", "ABC", "ABCDE", "é", "漢字", "ABCé", "éééé", "\u{0}", "ABCDEFGH"] {
                        bad!(format!("identifier {:?}", id), x => x.finish(WIPOffset::<Any>::new(0), Some(id)));
                        bad!(format!("size-prefixed identifier {:?}", id), x => x.finish_size_prefixed(WIPOffset::<Any>::new(0), Some(id)));
                    }
                    if let Some(o) = objs.last().copied().or_else(|| tabs.last().map(|t| t.0)) {
                        let o = WIPOffset::<Any>::new(o);
                        match r.below(4) {
                            0 => good!("finish_minimal", x => x.finish_minimal(o)),
                            1 => good!("finish", x => x.finish(o, None)),
                            2 => {
                                let id = *r.pick(&["WXYZ", "ABé", "éé", "😀", "a漢", "\u{0}\u{0}\u{0}\u{0}", "    "]);
                                good!("finish with identifier", x => x.finish(o, Some(id)))
                            }
                            _ => {
                                let id = *r.pick(&["WXYZ", "ABé", "éé", "😀", "a漢", "\u{0}\u{0}\u{0}\u{0}", "    "]);
                                good!("finish_size_prefixed", x => x.finish_size_prefixed(o, Some(id)))
                            }
                        }
                        finished = true;
                    }
                }
            },
            Open::Table(slots) => match r.below(13) {
                0 => bad!("start_table inside a table", x => x.start_table()),
                1 => bad!("start_vector inside a table", x => x.start_vector::<u8>(1)),
                2 => bad!("create_string inside a table", x => x.create_string(&s)),
                3 => bad!("create_byte_string inside a table", x => x.create_byte_string(s.as_bytes())),
                4 => bad!("create_vector_direct inside a table", x => x.create_vector_direct::<u8>(&[1])),
                5 => bad!("create_vector_of_strings inside a table", x => x.create_vector_of_strings(&["a"])),
                6 => bad!("finish inside a table", x => x.finish_minimal(WIPOffset::<Any>::new(0))),
                7 => bad!("finish_size_prefixed inside a table", x => x.finish_size_prefixed(WIPOffset::<Any>::new(0), None)),
                8 => bad!("create_vector inside a table", x => x.create_vector::<u16>(&[1, 2][..s.len().min(2)])),
                9 => {
                    let st = start.unwrap();
                    if dup {
                        bad!("end_table with a slot written twice", x => x.end_table(st));
                        // abandon it
                        good!("reset", x => x.reset());
                        objs.clear();
                        tabs.clear();
                        dup = false;
                    } else {
                        let t = good!("end_table", x => x.end_table(st).value());
                        tabs.push((t, slots.clone()));
                    }
                    open = Open::No;
                }
                _ => {
                    let slot = 4 + 2 * r.below(8) as u16;
                    let v = r.below(3) as u32;
                    if slots.contains(&slot) && r.chance(3, 4) {
                        continue;
                    }
                    if dup && !dbg {
                        continue;
                    }
                    let store = if r.bool() {
                        good!(format!("push_slot {}={}", slot, v), x => x.push_slot::<u32>(slot, v, 1));
                        v != 1
                    } else {
                        good!(format!("push_slot_always {}={}", slot, v), x => x.push_slot_always::<u32>(slot, v));
                        true
                    };
                    if store {
                        if slots.contains(&slot) {
                            dup = true;
                        } else {
                            slots.push(slot);
                        }
                    }
                }
            },
            Open::Vector(left) => match r.below(11) {
                0 => bad!("start_table inside a vector", x => x.start_table()),
                1 => bad!("start_vector inside a vector", x => x.start_vector::<u8>(1)),
                2 => bad!("create_string inside a vector", x => x.create_string(&s)),
                3 => bad!("create_byte_string inside a vector", x => x.create_byte_string(s.as_bytes())),
                4 => bad!("create_vector_direct inside a vector", x => x.create_vector_direct::<u8>(&[1])),
                5 => bad!("create_vector_of_strings inside a vector", x => x.create_vector_of_strings(&["a"])),
                6 => bad!("create_vector inside a vector", x => x.create_vector::<u16>(&[1, 2][..s.len().min(2)])),
                7 => bad!("finish inside a vector", x => x.finish(WIPOffset::<Any>::new(0), None)),
                _ => {
                    let n = *left;
                    for i in 0..n {
                        good!("push", x => { x.push::<u32>(i as u32); });
                    }
                    objs.push(good!("end_vector", x => x.end_vector::<u32>(n).value()));
                    open = Open::No;
                }
            },
        }
    }
    c.st.count("illegal calls refused", refused);
    c.st.count("legal calls accepted", allowed);
    if refused > 0 && allowed > 3 || !dbg {
        c.st.seen(trail.as_bytes());
    }
    c.st.sample(|| format!("case {}: {}", c.n, trail));
    Ok(())
}

/// finished_data before finishing is refused.
fn bad_data(b: &Fbb, dbg: bool, trail: &str) -> V {
    if dbg && guard(|| { b.finished_data().len() }).is_ok() {
        return Err(format!("finished_data before finish was not refused after [{}]", trail));
    }
    Ok(())
}

/// The two-gibibyte limit, with real allocations (case 0..3).
fn c07_big(c: &mut Case) -> V {
    const G2: usize = 1 << 31;
    c.st.seen(&c.n.to_le_bytes());
    match c.n {
        0 => {
            for cap in [G2 + 1, G2.saturating_mul(2), usize::MAX] {
                if guard(|| drop(FlatBufferBuilder::new_with_capacity(cap))).is_ok() {
                    return Err(format!("a builder of capacity {} was created", cap));
                }
            }
            guard(|| drop(FlatBufferBuilder::new_with_capacity(G2))).map_err(|m| format!("capacity of exactly 2 GiB refused: {}", m))?;
            c.st.count("limit probes", 4);
        }
        1 | 2 => {
            // fill to just under the limit, then one step over; case 2 grows there
            let big = vec![0u8; G2 - 64];
            let mut b: Fbb = FlatBufferBuilder::new_with_capacity(if c.n == 1 { G2 } else { 64 << 20 });
            let o = guard(|| b.create_vector_direct::<u8>(&big).value()).map_err(|m| format!("{} bytes refused: {}", big.len(), m))?;
            let used = b.unfinished_data().len();
            if used < big.len() || used > G2 {
                return Err(format!("{} bytes in use after writing {}", used, big.len()));
            }
            let mut refused = false;
            for _ in 0..40 {
                if guard(|| { b.create_string("0123456789"); }).is_err() {
                    refused = true;
                    break;
                }
                if b.unfinished_data().len() > G2 {
                    return Err(format!("builder holds {} bytes", b.unfinished_data().len()));
                }
            }
            if !refused {
                return Err("writing past two gibibytes was never refused".into());
            }
            if b.unfinished_data().len() > G2 {
                return Err(format!("builder holds {} bytes after refusing", b.unfinished_data().len()));
            }
            let _ = o;
            c.st.count("limit probes", 3);
            c.st.sample(|| format!("filled {} bytes of 2^31, then refused", used));
        }
        _ => {
            let big = vec![0u8; G2 + 16];
            let mut b: Fbb = FlatBufferBuilder::new();
            if guard(|| { b.create_byte_string(&big); }).is_ok() {
                return Err("a string of more than two gibibytes was accepted".into());
            }
            if b.unfinished_data().len() > G2 {
                return Err("builder exceeds two gibibytes".into());
            }
            c.st.count("limit probes", 1);
        }
    }
    Ok(())
}

// C08 ---------------------------------------------------------------------
/// Drives iterators over `v`, whose element i must be `want(i)`.
fn iter_machine<'a, T, I>(c: &mut Case, v: Vector<'a, T>, len: usize, conv: impl Fn(T::Inner) -> I, want: impl Fn(usize) -> Exp<I>) -> V
where
    T: Follow<'a> + 'a,
    I: PartialEq + std::fmt::Debug,
{
    let j = |i: usize, g: R<T::Inner>, how: &str| want(i).judge(&g.map(&conv)).map_err(|m| format!("{} element {} of {}: {}", how, i, len, m));
    if v.len() != Ok(len) {
        return Err(format!("len {:?}, expected {}", v.len(), len));
    }
    if v.is_empty() != Ok(len == 0) {
        return Err("is_empty disagrees".into());
    }
    let mut its: Vec<(VectorIter<'a, T>, usize, usize)> = vec![(v.iter(), 0, len)];
    let steps = c.r.range(3, if cfg!(miri) { 12 } else { 40 });
    let mut trail = String::new();
    for _ in 0..steps {
        let k = c.r.below(its.len());
        let skip = match c.r.below(12) {
            0 => usize::MAX,
            1 => usize::MAX - c.r.below(8),
            2 => len,
            3 => len.wrapping_sub(1),
            4 => len + 1,
            5 => usize::MAX / 2 + c.r.below(3),
            6 => usize::MAX / 4,
            // byte distances just beyond a power of two
            7 => (1u64 << c.r.range(12, 34)).wrapping_add(c.r.below(3) as u64) as usize,
            _ => c.r.below(5),
        };
        let idx = match c.r.below(5) {
            2 => (1u64 << c.r.range(12, 34)).wrapping_add(c.r.below(3) as u64) as usize,
            0 => len.wrapping_add(c.r.below(3)).wrapping_sub(1),
            1 => usize::MAX - c.r.below(3),
            _ => c.r.below(len.max(1)),
        };
        let (it, lo, hi) = &mut its[k];
        let rem = *hi - *lo;
        let op = c.r.below(14);
        trail.push_str(&format!("#{}op{}({}) ", k, op, skip));
        let mut fork = None;
        let res: V = (|| match op {
            0 | 1 => match it.next() {
                None if rem == 0 => Ok(()),
                Some(g) if rem > 0 => {
                    *lo += 1;
                    j(*lo - 1, g, "next")
                }
                o => Err(format!("next is_some={} with {} remaining", o.is_some(), rem)),
            },
            2 | 3 => match it.next_back() {
                None if rem == 0 => Ok(()),
                Some(g) if rem > 0 => {
                    *hi -= 1;
                    j(*hi, g, "next_back")
                }
                o => Err(format!("next_back is_some={} with {} remaining", o.is_some(), rem)),
            },
            4..=7 if skip.min(rem) as u64 > reach(op >= 6) => Ok(()),
            4 | 5 => match it.nth(skip) {
                None if skip >= rem => {
                    *lo = *hi;
                    Ok(())
                }
                Some(g) if skip < rem => {
                    *lo += skip + 1;
                    j(*lo - 1, g, "nth")
                }
                o => Err(format!("nth({}) is_some={} with {} remaining", skip, o.is_some(), rem)),
            },
            6 | 7 => match it.nth_back(skip) {
                None if skip >= rem => {
                    *lo = *hi;
                    Ok(())
                }
                Some(g) if skip < rem => {
                    *hi -= skip + 1;
                    j(*hi, g, "nth_back")
                }
                o => Err(format!("nth_back({}) is_some={} with {} remaining", skip, o.is_some(), rem)),
            },
            8 => {
                if it.size_hint() != (rem, Some(rem)) || it.len() != rem {
                    return Err(format!("size_hint {:?} len {} with {} remaining", it.size_hint(), it.len(), rem));
                }
                Ok(())
            }
            9 => {
                fork = Some((it.clone(), *lo, *hi));
                Ok(())
            }
            10 if rem < 5000 => {
                // adaptors over a clone
                let s = skip % 4;
                let step = 1 + skip % 3;
                let mut i = *lo + s;
                for g in it.clone().skip(s).step_by(step) {
                    if i >= *hi {
                        return Err("skip/step_by yields too many".into());
                    }
                    j(i, g, "skip/step_by")?;
                    i += step;
                }
                if i < *hi {
                    return Err(format!("skip({})/step_by({}) stopped at {} of {}", s, step, i, *hi));
                }
                if it.clone().count() != rem {
                    return Err("count disagrees".into());
                }
                match it.clone().last() {
                    None if rem == 0 => {}
                    Some(g) if rem > 0 => j(*hi - 1, g, "last")?,
                    _ => return Err("last disagrees".into()),
                }
                Ok(())
            }
            11 if rem < 5000 => {
                let mut i = *hi;
                for g in it.clone().rev() {
                    if i == *lo {
                        return Err("rev yields too many".into());
                    }
                    i -= 1;
                    j(i, g, "rev")?;
                }
                if i != *lo {
                    return Err("rev stopped early".into());
                }
                Ok(())
            }
            12 => {
                // start afresh through the other conversions
                let mut n = if skip % 2 == 0 { v.into_iter() } else { (&v).into_iter() };
                match n.next() {
                    None if len == 0 => Ok(()),
                    Some(g) if len > 0 => j(0, g, "into_iter"),
                    _ => Err("into_iter disagrees".into()),
                }
            }
            _ => {
                let g = v.get(idx);
                if idx >= len {
                    if g.is_ok() {
                        return Err(format!("get({}) of {} is not an error", idx, len));
                    }
                    Ok(())
                } else {
                    j(idx, g, "get")
                }
            }
        })();
        res.map_err(|m| format!("{} after {}", m, trail))?;
        c.st.count("iterator operations", 1);
        // exhausted iterators stay so
        if let Some(f) = fork {
            if its.len() < 4 {
                its.push(f);
            }
        }
        let (it, lo, hi) = &its[k];
        if lo == hi {
            let mut a = it.clone();
            if a.next().is_some() || a.next_back().is_some() || a.nth(0).is_some() || a.nth_back(1).is_some() || a.next().is_some() {
                return Err(format!("exhausted iterator yields again after {}", trail));
            }
        }
    }
    Ok(())
}

/// A vector whose length lies outside the buffer: every view but the iterator,
/// which has nothing to report, says so.
fn c08_no_length(c: &mut Case) -> V {
    let n = c.r.below(20);
    let b: Vec<u8> = (0..n).map(|_| c.r.below(3) as u8).collect();
    let loc = match c.r.below(6) {
        0 => usize::MAX - c.r.below(6),
        1 => n + c.r.below(20),
        _ => n.saturating_sub(c.r.below(4)),
    };
    if n >= 4 && loc <= n - 4 {
        return Ok(());
    }
    let at = At::new(&b, c.r.below(16));
    let buf = at.get();
    let idx = *c.r.pick(&[0usize, 1, 7, usize::MAX]);
    let res = with_st!(*c.r.pick(&ALL_ST), T => {
        guard(|| -> V {
            let v: Vector<T> = Vector::new(buf, loc);
            if let Ok(x) = v.len() {
                return Err(format!("len answers {}", x));
            }
            if let Ok(x) = v.is_empty() {
                return Err(format!("is_empty answers {} although the length cannot be read", x));
            }
            if v.get(idx).is_ok() {
                return Err(format!("element {} of a vector without length", idx));
            }
            let mut it = v.iter();
            if it.size_hint() != (0, Some(0)) || it.len() != 0 || it.next().is_some() || it.next_back().is_some() || it.nth(idx).is_some() {
                return Err("iterates over a vector without length".into());
            }
            #[cfg(target_endian = "little")]
            if <&[T] as Follow>::follow(buf, loc).is_ok() {
                return Err("slice of a vector without length".into());
            }
            let s: Vector<u8> = Vector::new(buf, loc);
            if s.safe_slice().is_ok() || <&str>::follow(buf, loc).is_ok() {
                return Err("safe_slice or string without length".into());
            }
            Ok(())
        })
    });
    c.st.count("vectors without a length", 1);
    match res {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
    .map_err(|m| format!("{} || vector at {} of {}", m, loc, hex(&b)))
}

fn c08(c: &mut Case) -> V {
    if c.r.chance(1, 40) {
        return c08_no_length(c);
    }
    let n = match c.r.below(6) {
        0 => 0,
        1 => 1,
        2 if !cfg!(miri) => c.r.range(50, 300),
        _ => c.r.below(12),
    };
    let kind = c.r.below(16);
    // a lone vector, possibly preceded by padding bytes, possibly lying about its length
    let pre = 4 * c.r.below(4) + if c.r.chance(1, 8) { c.r.below(4) } else { 0 };
    let mut b: Vec<u8> = (0..pre).map(|_| c.r.u64() as u8).collect();
    let mut claimed = n;
    let mut st = *c.r.pick(&ALL_ST);
    let sz = match kind {
        0..=9 => st.size(),
        10 | 11 => STRUCTS[kind % 5].0,
        _ => 4,
    };
    if c.r.chance(1, 5) {
        claimed = match c.r.below(3) {
            0 => n + c.r.below(5),
            1 => u32::MAX as usize,
            _ => c.r.u32() as usize,
        };
    }
    if claimed > 1 << 28 && cfg!(miri) {
        claimed = n + 1;
    }
    b.extend_from_slice(&(claimed as u32).to_le_bytes());
    let first = b.len();
    if kind >= 12 {
        // offsets to strings or other vectors
        b.resize(first + 4 * n, 0);
        for i in 0..n {
            let at = first + 4 * i;
            let here = b.len();
            let s = rand_string(&mut c.r);
            b.extend_from_slice(&(s.len() as u32).to_le_bytes());
            b.extend_from_slice(s.as_bytes());
            b.push(if c.r.chance(1, 10) { 1 } else { 0 });
            b[at..at + 4].copy_from_slice(&((here - at) as u32).to_le_bytes());
        }
    } else {
        for _ in 0..n * sz {
            let x = c.r.u64() as u8;
            b.push(if st == ST::Bool && c.r.chance(7, 8) { x & 1 } else { x });
        }
    }
    if c.r.chance(1, 6) {
        let k = c.r.below(6);
        b.truncate(b.len().saturating_sub(k).max(first));
    }
    let at = At::new(&b, c.r.below(16));
    let buf = at.get();
    let l = Len { b: buf };
    let p = |i: usize| (first + i * sz) as i128;
    let res = match kind {
        0..=9 => with_st!(st, T => {
            let v: Vector<T> = Vector::new(buf, pre);
            #[allow(unused_mut)]
            let mut r = iter_machine(c, v, claimed, |x| x.sc(), |i| l.scalar(st, p(i)));
            #[cfg(target_endian = "little")]
            if r.is_ok() {
                let exp = l.slice(st, pre as i128, buf.as_ptr() as usize);
                let got = <&[T] as Follow>::follow(buf, pre).map(|s| s.iter().map(|x| x.sc()).collect::<Vec<_>>());
                r = exp.judge(&got).map_err(|m| format!("slice: {}", m));
                c.st.count("slices compared", 1);
                if let (Ok(_), Some(got)) = (&r, <T as Direct>::safe(buf, pre)) {
                    r = exp.judge(&got).map_err(|m| format!("safe_slice: {}", m));
                }
            }
            r
        }),
        10 | 11 => crate::with_struct!(kind % 5, T => {
            let v: Vector<T> = Vector::new(buf, pre);
            #[allow(unused_mut)]
            let mut r = iter_machine(c, v, claimed, |x| x.0.to_vec(), |i| l.raw(p(i), sz));
            let exp = if l.bytes(first as i128, (claimed * sz) as i128).is_none() { Exp::Err }
                else if claimed == 0 { Exp::Any }
                else if (buf.as_ptr() as usize + first) % STRUCTS[kind % 5].1 != 0 { Exp::Err }
                else { Exp::Ok(buf[first..first + claimed * sz].to_vec()) };
            let got = v.safe_slice().map(|s| s.iter().flat_map(|x| x.0.to_vec()).collect::<Vec<u8>>());
            r.and_then(|_| exp.judge(&got).map_err(|m| format!("safe_slice: {}", m)))
        }),
        12 | 13 => {
            let v: Vector<ForwardsUOffset<&str>> = Vector::new(buf, pre);
            iter_machine(c, v, claimed, |x| x.as_bytes().to_vec(), |i| l.uoff(p(i)).and_then(|q| l.string(q)))
        }
        14 => {
            let v: Vector<ForwardsUOffset<Vector<u8>>> = Vector::new(buf, pre);
            iter_machine(c, v, claimed, |x| x.len().ok().map(|n| n as u32), |i| l.uoff(p(i)).map(|q| l.u32(q).value()))
        }
        _ => {
            st = ST::U8;
            let v: Vector<ForwardsUOffset<DynTab>> = Vector::new(buf, pre);
            iter_machine(c, v, claimed, |x| x.loc as i128, |i| l.uoff(p(i)))
        }
    };
    let _ = st;
    res.map_err(|m| format!("{} || kind {} type {:?} vector at {} of {}", m, kind, st, pre, hex(&b)))?;
    if claimed > 0 {
        c.st.seen(&b);
        c.st.sample(|| format!("case {}: kind {} claimed {} bytes {}", c.n, kind, claimed, hex(&b[..b.len().min(120)])));
    }
    Ok(())
}

// C09 ---------------------------------------------------------------------
fn c09(c: &mut Case) -> V {
    let env = rand_env(&mut c.r);
    let ty = c.r.below(env.tables.len());
    let n = budget(&mut c.r);
    let t = VGen::new(&mut c.r, &env, n, true).table(ty, 0);
    let o = EncOpts {
        size_prefix: c.r.chance(1, 3),
        ident: if c.r.chance(1, 3) { Some(*b"abcd") } else { None },
        keep_defaults: true,
        unknown_fields: true,
    };
    let b = encode(&mut c.r, &env, &t, &o);
    let at = At::new(&b, c.r.below(16));
    let buf = at.get();
    let mut cmp = Cmp::new(&env);
    let res = guard(|| -> V {
        let tab = if o.size_prefix { Table::get_size_prefixed_root(buf) } else { Table::get_root(buf) }.map_err(|e| format!("root: {:?}", e))?;
        cmp.table(&tab, &t)?;
        if let Some(id) = o.ident {
            let id = std::str::from_utf8(&id).unwrap().to_string();
            if buffer_has_identifier(buf, &id, o.size_prefix) != Ok(true) {
                return Err("identifier not recognised".into());
            }
        }
        Ok(())
    });
    let res = match res {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    };
    c.st.count("values read", cmp.reads);
    res.map_err(|m| format!("{} || value {:?} bytes {}", m, t, hex(&b)))?;
    if t.f.iter().any(|f| f.is_some()) {
        c.st.seen(&b);
        c.st.sample(|| format!("case {}: {}", c.n, hex(&b[..b.len().min(200)])));
    }
    Ok(())
}

// C10 ---------------------------------------------------------------------
fn c10(c: &mut Case) -> V {
    let n = c.r.range(1, 12);
    let mut p = Prog::gen(&mut c.r, n);
    // every framing in turn
    p.size_prefix = c.n % 2 == 1;
    p.ident = if c.n % 4 >= 2 { Some(rand_ident(&mut c.r)) } else { None };
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(rand_cap(&mut c.r));
    let (bytes, run) = build(&p, &mut b);
    let ctx = |m: String| format!("{} || size_prefix={} ident={:?} bytes {}", m, p.size_prefix, p.ident, hex(&bytes));
    let sp = p.size_prefix;
    let hdr = if sp { 4 } else { 0 };
    if sp {
        let n = u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]) as usize;
        if n != bytes.len() - 4 {
            return Err(ctx(format!("size prefix {} for {} following bytes", n, bytes.len() - 4)));
        }
    }
    let loc = bytes.len() - run.offs[&(Arc::as_ptr(&p.root) as usize)] as usize;
    let t = if sp { Table::get_size_prefixed_root(&bytes[..]) } else { Table::get_root(&bytes[..]) };
    match t {
        Ok(t) if t.loc == loc => Cmp::new(&p.env).table(&t, &p.wire_root()).map_err(&ctx)?,
        o => return Err(ctx(format!("root reader finds {:?}, the root is at {}", o.map(|t| t.loc), loc))),
    }
    if let Some(id) = &p.ident {
        if buffer_has_identifier(&bytes, id, sp) != Ok(true) {
            return Err(ctx("own identifier not found".into()));
        }
        if bytes[hdr + 4..hdr + 8] != *id.as_bytes() {
            return Err(ctx("identifier bytes wrong".into()));
        }
    }
    // identifiers that differ in one byte, and the other framing
    let mut ids = vec!["ABCD".to_string(), "\0\0\0\0".to_string(), rand_ident(&mut c.r)];
    if let Some(id) = &p.ident {
        ids.push(id.clone());
        if id.is_ascii() {
            for k in 0..4 {
                for bit in 0..7 {
                    let mut x = id.clone().into_bytes();
                    x[k] ^= 1 << bit;
                    ids.push(String::from_utf8(x).unwrap());
                }
                for j in 0..k {
                    let mut x = id.clone().into_bytes();
                    x.swap(j, k);
                    ids.push(String::from_utf8(x).unwrap());
                }
                // what differs only from the kth byte on, or before it
                for pad in [0u8, b' ', b'_'] {
                    let mut x = id.clone().into_bytes();
                    x[k..].iter_mut().for_each(|b| *b = pad);
                    ids.push(String::from_utf8(x).unwrap());
                    let mut x = id.clone().into_bytes();
                    x[..k].iter_mut().for_each(|b| *b = pad);
                    ids.push(String::from_utf8(x).unwrap());
                }
            }
            ids.push(id.to_ascii_uppercase());
            ids.push(id.to_ascii_lowercase());
            ids.push(id.chars().rev().collect());
        }
    }
    // every truncation, both framings
    let l0 = bytes.len();
    let cuts: Vec<usize> = (0..=l0.min(16)).chain([l0.saturating_sub(1), l0]).collect();
    for n in cuts {
        let x = &bytes[..n];
        let l = Len { b: x };
        for q in [false, true] {
            let at = if q { 8 } else { 4 };
            // the near misses on the whole buffer, a few everywhere
            for id in ids.iter().take(if n == l0 { ids.len() } else { 6 }) {
                let exp = match l.bytes(at, 4) {
                    None => Exp::Err,
                    Some(g) => Exp::Ok(g == id.as_bytes()),
                };
                let got = guard(|| buffer_has_identifier(x, id, q)).map_err(|m| ctx(format!("identifier test panicked on {} bytes: {}", n, m)))?;
                exp.judge(&got).map_err(|m| ctx(format!("identifier {:?} size_prefixed={} on {} bytes: {}", id, q, n, m)))?;
                c.st.count("identifier tests", 1);
            }
            let got = guard(|| if q { Table::get_size_prefixed_root(x) } else { Table::get_root(x) }).map_err(|m| ctx(format!("root reader panicked on {} bytes: {}", n, m)))?;
            let got2 = guard(|| if q { get_size_prefixed_root::<Table<&[u8]>, _>(x) } else { get_root::<Table<&[u8]>, _>(x) }).map_err(|m| ctx(m))?;
            l.root(q).judge(&got.map(|t| t.loc as i128)).map_err(|m| ctx(format!("root of {} bytes size_prefixed={}: {}", n, q, m)))?;
            l.root(q).judge(&got2.map(|t| t.loc as i128)).map_err(|m| ctx(format!("root of {} bytes size_prefixed={}: {}", n, q, m)))?;
            c.st.count("root reads", 2);
        }
    }
    note_prog(c, &p, &bytes);
    Ok(())
}

// C04 ---------------------------------------------------------------------
/// The same workloads, for running under a sanitizer or interpreter; what is
/// decided there is whether the tool reports anything.
fn c04(c: &mut Case) -> V {
    let kind = if c.n % (if cfg!(miri) { 13 } else { 50 }) == 12 { 99 } else { c.n % 9 };
    let res = guard(|| match kind {
        99 => c04_large(c),
        0 => c01(c),
        1 => c05(c),
        2 => c08(c),
        3 => c07(c),
        4 => c09(c),
        5 => c04_scalars(c),
        6 => c03(c),
        _ => c04_unsafe(c),
    });
    // wrong values and panics are other properties' business
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) if m.contains("harness:") => return Err(m),
        Err(m) if m.contains("harness:") => return Err(m),
        Ok(Err(m)) if m.contains("undefined:") => return Err(m),
        _ => c.st.count("workloads that ended early", 1),
    }
    Ok(())
}

/// Scalars through raw slices at every address alignment, byte swapping.
fn c04_scalars(c: &mut Case) -> V {
    let mut b: Vec<u8> = (0..40).map(|_| c.r.u64() as u8).collect();
    for st in ALL_ST {
        let off = c.r.below(16);
        let v = rand_scalar(&mut c.r, st);
        let mut at = At::new(&b, c.r.below(16));
        with_st!(st, T => {
            emplace_scalar::<T>(&mut at.get_mut()[off..], <T as ToSc>::of(v));
            let g = read_scalar_at::<T>(at.get(), off).map(|x| x.sc());
            if g != Ok(v) {
                return Err(format!("{:?} written then read as {:?}", v, g));
            }
            let _ = read_scalar::<T>(&b[off..]);
        });
        b[off..off + st.size()].copy_from_slice(&v.bytes());
        if at.get()[off..off + st.size()] != b[off..off + st.size()] {
            return Err(format!("{:?} written as {}", v, hex(at.get())));
        }
    }
    let f = f32::from_bits(c.r.u32());
    let d = f64::from_bits(c.r.u64());
    if byte_swap_f32(byte_swap_f32(f)).to_bits() != f.to_bits() || byte_swap_f64(byte_swap_f64(d)).to_bits() != d.to_bits() {
        return Err("byte swap is not an involution".into());
    }
    c.st.seen(&b);
    Ok(())
}

/// A slice handed out lies within the buffer, is aligned, and holds values of its type.
fn c04_slice<T: EndianScalar>(buf: &[u8], s: &[T]) -> V {
    let (p, n) = (s.as_ptr() as usize, std::mem::size_of::<T>() * s.len());
    if p % std::mem::align_of::<T>() != 0 {
        return Err(format!("undefined: a slice at address {:x} of elements of {} bytes", p, std::mem::size_of::<T>()));
    }
    let b = buf.as_ptr() as usize;
    if n > 0 && (p < b || p + n > b + buf.len()) {
        return Err(format!("undefined: a slice of {} bytes at {} of a buffer of {}", n, p as i128 - b as i128, buf.len()));
    }
    // as bytes: a bool that is not one must not be looked at as one
    if n > 0 && std::any::type_name::<T>() == "bool" && buf[p - b..p - b + n].iter().any(|x| *x > 1) {
        return Err("undefined: a slice of bools with a byte that is none".into());
    }
    Ok(())
}

/// Long vectors and strings, correct or damaged at one place far inside.
fn c04_large(c: &mut Case) -> V {
    let top = if cfg!(miri) { 6 } else { 17 };
    let e = c.r.range(4, top);
    let n = c.r.range(1, 1 << e);
    if c.r.chance(1, 3) {
        let mut b: Fbb = FlatBufferBuilder::new_with_capacity(c.r.below(20));
        let k = n.min(20_000);
        match c.r.below(4) {
            0 => drop(b.create_byte_string(&vec![7; n])),
            1 => drop(b.create_vector_direct::<u8>(&vec![7; n])),
            2 => drop(b.create_vector_direct::<St4>(&vec![St4([9; 32]); k])),
            _ => drop(b.create_vector_of_strings(&vec!["ab"; k])),
        }
        c.st.count("long objects built", 1);
        c.st.seen(&n.to_le_bytes());
        if c.r.bool() {
            b.reset();
            b.create_string("abc");
        }
        return Ok(());
    }
    // length, data, a terminator, maybe something more
    let ascii = c.r.bool();
    let st = *c.r.pick(&ALL_ST);
    let bytes = n * st.size();
    let kind = c.r.below(3);
    let mut b: Vec<u8> = match (kind, c.r.below(8)) {
        (_, 0) => c.r.u32().to_le_bytes().to_vec(),
        (0, _) => (bytes as u32).to_le_bytes().to_vec(),
        _ => (n as u32).to_le_bytes().to_vec(),
    };
    let w = c.r.u64() | 1;
    b.extend((0..bytes).map(|i| if ascii { b'a' + (i % 26) as u8 } else { (w >> (i % 64)) as u8 & 1 }));
    b.extend(vec![0; c.r.range(1, 8)]);
    for _ in 0..c.r.below(3) {
        let at = 4 + c.r.below(bytes);
        b[at] = *c.r.pick(&[0xc3, 0x80, 0xff, 2, 0xed, 0xf0]);
    }
    if c.r.chance(1, 4) {
        b.truncate(c.r.below(b.len()));
    }
    let at = At::new(&b, c.r.below(9));
    let buf = at.get();
    if kind == 0 {
        if let Ok(s) = <&str>::follow(buf, 0) {
            c04_slice::<u8>(buf, s.as_bytes())?;
            if std::str::from_utf8(s.as_bytes()).is_err() {
                return Err("undefined: a str that is not UTF-8".into());
            }
            c.st.count("long strings handed out", 1);
        }
    } else {
        with_st!(st, T => {
            #[cfg(target_endian = "little")]
            {
                if let Ok(s) = <&[T]>::follow(buf, 0) {
                    c04_slice::<T>(buf, s)?;
                    c.st.count("long slices handed out", 1);
                }
                let _ = <T as Direct>::safe(buf, 0);
            }
            for x in Vector::<T>::new(buf, 0).iter().rev().take(3) {
                let _ = x.map(|x| x.sc());
            }
        });
    }
    c.st.seen(&b[..b.len().min(64)]);
    Ok(())
}

/// Goes straight for the code that handles raw memory: direct vectors and
/// slices of every type at every address, string vectors around the inline
/// limit, growth, reset, undone vtables, bools that are not 0 or 1.
fn c04_unsafe(c: &mut Case) -> V {
    let mut b: Fbb = FlatBufferBuilder::new_with_capacity(c.r.below(20));
    if c.r.chance(1, 4) {
        b.start_table();
        b.push_slot_always::<u64>(4, 1);
        b.reset();
    }
    let mut locs = vec![];
    for _ in 0..c.r.range(1, 3) {
        let n = c.r.below(4);
        match c.r.below(12) {
            0 => locs.push((0, b.create_vector_direct::<u8>(&vec![7; n]).value())),
            #[cfg(target_endian = "little")]
            1 => locs.push((1, b.create_vector_direct::<u16>(&vec![7; n]).value())),
            #[cfg(target_endian = "little")]
            2 => locs.push((2, b.create_vector_direct::<u32>(&vec![7; n]).value())),
            #[cfg(target_endian = "little")]
            3 => locs.push((3, b.create_vector_direct::<u64>(&vec![7; n]).value())),
            #[cfg(target_endian = "little")]
            4 => locs.push((4, b.create_vector_direct::<f64>(&vec![7.5; n]).value())),
            5 => locs.push((5, b.create_vector::<bool>(&vec![true; n]).value())),
            6 => locs.push((6, b.create_vector_direct::<St4>(&vec![St4([9; 32]); n]).value())),
            7 => {
                let k = *c.r.pick(&[0usize, 1, 2, 15, 16, 17, 20, 31, 33, 64, 70]);
                locs.push((7, b.create_vector_of_strings(&vec!["ab"; k]).value()));
            }
            8 => {
                for _ in 0..2 {
                    let t = b.start_table();
                    b.push_slot_always::<u8>(4, 1);
                    b.push_slot_always::<f64>(8, 1.0);
                    locs.push((8, b.end_table(t).value()));
                }
            }
            _ => locs.push((9, b.create_string("xyz").value())),
        }
    }
    let root = WIPOffset::<Any>::new(locs[0].1);
    if c.r.bool() {
        b.finish_size_prefixed(root, Some("ABCD"));
    } else {
        b.finish_minimal(root);
    }
    let bytes = b.finished_data().to_vec();
    let off = c.r.below(9);
    let at = At::new(&bytes, off);
    let buf = at.get();
    for (k, o) in &locs {
        let l = buf.len() - *o as usize;
        // the right type first, then whatever type
        for k in [*k, c.r.below(10)] {
            match k {
                0 => drop(Vector::<i8>::new(buf, l).safe_slice().map(|s| s.iter().map(|x| *x as i64).sum::<i64>())),
                #[cfg(target_endian = "little")]
                1 => drop(Vector::<u16>::new(buf, l).safe_slice().map(|s| s.iter().map(|x| *x as u64).sum::<u64>())),
                #[cfg(target_endian = "little")]
                2 => drop(<&[u32]>::follow(buf, l).map(|s| s.iter().map(|x| *x as u64).sum::<u64>())),
                #[cfg(target_endian = "little")]
                3 => drop(Vector::<u64>::new(buf, l).safe_slice().map(|s| s.iter().fold(0u64, |a, x| a ^ *x))),
                #[cfg(target_endian = "little")]
                4 => drop(<&[f64]>::follow(buf, l).map(|s| s.iter().sum::<f64>())),
                #[cfg(target_endian = "little")]
                5 => drop(<&[bool]>::follow(buf, l).map(|s| s.iter().filter(|x| **x).count())),
                6 => drop(Vector::<St4>::new(buf, l).safe_slice().map(|s| s.iter().map(|x| x.0[3] as u64).sum::<u64>())),
                7 => {
                    for s in Vector::<ForwardsUOffset<&str>>::new(buf, l).iter().take(30) {
                        let _ = s.map(|s| s.chars().count());
                    }
                }
                8 => {
                    let t = Table::new(buf, l);
                    let _ = t.get::<u8>(4, None);
                    let _ = t.get::<f64>(8, None);
                    let _ = t.get::<bool>(8, None);
                }
                _ => drop(<&str>::follow(buf, l).map(|s| s.chars().count())),
            }
        }
    }
    // bytes that are no bool
    let x = [c.r.u64() as u8, 1, 0, 0, c.r.below(4) as u8, 2];
    let _ = read_scalar::<bool>(&x).map(|b| if b { 1 } else { 2 });
    let _ = read_scalar_at::<bool>(&x, 4).map(|b| format!("{}", b));
    let _ = <bool as Follow>::follow(&x, 5).map(|b| format!("{}", b));
    #[cfg(target_endian = "little")]
    let _ = <&[bool]>::follow(&x, 1).map(|s| s.to_vec());
    c.st.count("raw memory workloads", 1);
    c.st.seen(&bytes);
    Ok(())
}

pub fn main() {
    let o = Opts::parse();
    let n = o.cases;
    let prop = o.prop.clone();
    let rule = match &prop[..] {
        "C01" => "a case is a random type environment, value DAG and legal call sequence; non-trivial if the root stores a field; distinct by finished bytes",
        "C02" => "as C01, sometimes on a reused builder; every object, vtable, gap and the framing judged by the strict decoder; distinct by finished bytes",
        "C03" => "a case is a byte string (mutated conforming buffer, crafted or random) read through every reader; non-trivial if more than 10 reads gave values and some gave errors; distinct by bytes",
        "C04" => "a case is one workload of C01, C03, C05, C07, C08, C09 or raw scalar access; distinct by content",
        "C05" => "a case is one program run on a fresh large builder and on three builders with other capacities, reset histories and clones; distinct by finished bytes",
        "C06" => "a case is a program of many tables with few layouts; distinct by finished bytes",
        "C07" => "a case is a random history of legal calls, with illegal calls tried on copies at random points; non-trivial if something was refused and more than 3 calls accepted; distinct by history",
        "C08" => "a case is one vector and a random sequence of operations on up to 4 iterators over it; non-trivial if the vector claims elements; distinct by bytes",
        "C09" => "a case is a value laid out by the independent writer; non-trivial if the root stores a field; distinct by bytes",
        "C10" => "a case is a program finished with one of the four framings and read at every short truncation; distinct by finished bytes",
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(64)
        }
    };
    let big = o.get("big").is_some();
    let mut rep = Report::new(o, rule);
    match &prop[..] {
        "C01" => rep.run("c01", n, c01),
        "C02" => rep.run("c02", n, c02),
        "C03" => rep.run("c03", n, c03),
        "C04" => rep.run("c04", n, c04),
        "C05" => rep.run("c05", n, c05),
        "C06" => rep.run("c06", n, c06),
        "C07" if big => {
            rep.opts.threads = 1;
            rep.run("c07big", 4, c07_big)
        }
        "C07" => rep.run("c07", n, c07),
        "C08" => rep.run("c08", n, c08),
        "C09" => rep.run("c09", n, c09),
        _ => rep.run("c10", n, c10),
    }
    rep.finish();
}
