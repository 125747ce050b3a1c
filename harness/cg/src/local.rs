//! Checks that watch the schema compiler itself: C11, C18, C19, C22, C23.
use crate::grammar::{self, Verdict};
use crate::rs;
use crate::sut::{compile, compile_with, Out};
use butte_build::codegen::RpcGenerator;
use butte_build::ir::types as ir;
use model::names::{fix, key, rand_name, snake, NK};
use model::run::{Case, Opts, Report};
use model::schema::*;
use model::*;
use proc_macro2::TokenStream;
use std::sync::{Arc, Mutex};

pub type V = Result<(), String>;

pub fn short(s: &str) -> String {
    let mut t: String = s.chars().take(3000).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

/// A schema of the general kind, varied in size and emphasis.
pub fn rand_schema(r: &mut Rng) -> Schema {
    let k = *r.pick(&["C12", "C13", "C15", "C16", "C17", "C18"]);
    let mut p = prof(k);
    p.docs = *r.pick(&[0, 2, 8]);
    p.services = *r.pick(&[(0, 0), (0, 1), (1, 3)]);
    if r.chance(1, 3) {
        p.tables = (1, 2);
        p.fields = (0, 3);
        p.enums = (0, 1);
        p.unions = (0, 1);
    }
    Schema::generate(r, &p)
}

// ------------------------------------------------------------------- C11

const VOCAB: [&str; 96] = [
    "table", "struct", "enum", "union", "namespace", "root_type", "rpc_service", "include", "file_identifier", "file_extension", "attribute", "{", "}", "[",
    "]", "(", ")", ":", ";", ",", ".", "=", "A", "B", "foo", "x", "_", "__", "int", "string", "bool", "ubyte", "float", "double", "ulong", "true", "false",
    "inf", "nan", "-inf", "+nan", "infinity", "0", "1", "-1", "+1", "255", "256", "-128", "0x", "0xFF", "0x1p3", "-0x1.8p-2", "0x.", "1e", "1e5", "1e999", "-1e-999",
    ".5", "5.", ".", "-", "+", "00", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
    "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999", "-170141183460469231731687303715884105728",
    "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "\"s\"", "\"\"", "\"", "\"ABCD\"", "\"é漢🦀\"", "\"\\\"", "\"\\n\\u12\"", "required", "streaming", "client", "\"client\"",
    "deprecated", "id", "///doc\n", "///\n", "//c\n", "/", "//", "///", "type", "fn", "self", "é", "🦀",
];

fn soup(r: &mut Rng) -> String {
    let n = r.small(20, 120);
    let sep = r.below(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&VOCAB));
        match sep {
            0 => s.push(' '),
            1 => s.push_str(*r.pick(&["", " ", "\n", "\r\n", "\t"])),
            _ => {
                if r.chance(5, 6) {
                    s.push(' ')
                }
            }
        }
    }
    s
}

fn tok_mutate(r: &mut Rng, t: &mut Vec<Tok>) {
    for _ in 0..r.range(1, 3) {
        if t.is_empty() {
            return;
        }
        let i = r.below(t.len());
        match r.below(7) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => {
                let j = r.below(t.len());
                t.swap(i, j);
            }
            3 => t[i] = Tok::W((*r.pick(&VOCAB)).to_string()),
            4 => {
                let j = r.below(t.len());
                t[i] = t[j].clone();
            }
            5 => t.truncate(i),
            _ => t.insert(i, Tok::W((*r.pick(&VOCAB)).to_string())),
        }
    }
}

fn char_mutate(r: &mut Rng, s: &str) -> Vec<u8> {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        if c.is_empty() {
            break;
        }
        let i = r.below(c.len());
        match r.below(6) {
            0 => {
                c.remove(i);
            }
            1 => c[i] = *r.pick(&['{', '}', ';', ':', '"', '/', '=', '\n', '\r', '0', '-', '.', 'e', 'x', '\u{0}', 'é', '🦀', '\u{feff}', '(', ']']),
            2 => c.insert(i, *r.pick(&['{', '}', ';', ':', '"', '/', '=', '\n', '\r', '0', '-', '.', 'e', 'x', ' ', '_', '🦀', ')', '['])),
            3 => c.truncate(i),
            4 => {
                let n = r.range(1, 8).min(c.len() - i);
                let part: Vec<char> = c[i..i + n].to_vec();
                for _ in 0..r.range(1, 5) {
                    let j = r.below(c.len() + 1);
                    for (k, x) in part.iter().enumerate() {
                        c.insert(j + k, *x);
                    }
                }
            }
            _ => {
                let n = r.range(1, 20).min(c.len() - i);
                c.drain(i..i + n);
            }
        }
    }
    let mut b = c.into_iter().collect::<String>().into_bytes();
    if r.chance(1, 10) && !b.is_empty() {
        let i = r.below(b.len());
        b[i] = *r.pick(&[0xff, 0xc0, 0x80, 0xf8]);
    }
    b
}

/// Digits of a number around the limit of some integer type.
fn limit(r: &mut Rng, hex: bool) -> String {
    let k = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
    let base = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
    match r.below(3) {
        // one more than the largest 128-bit number
        0 if k == 128 => if hex { "100000000000000000000000000000000".into() } else { "340282366920938463463374607431768211456".into() },
        d => {
            let v = base.saturating_add(1).saturating_sub(d as u128);
            if hex { format!("{:x}", v) } else { v.to_string() }
        }
    }
}

fn number(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        let sign = *r.pick(&["", "-", "+"]);
        return match r.below(6) {
            0 | 1 => format!("{}{}", sign, limit(r, false)),
            2 => format!("{}0x{}", sign, limit(r, true)),
            3 => format!("{}0x1{}p{}{}", sign, *r.pick(&["", ".", ".8", ".000000000000000000001"]), *r.pick(&["", "-", "+"]), limit(r, false)),
            4 => format!("{}0x{}.{}p{}{}", sign, limit(r, true), limit(r, true), *r.pick(&["", "-", "+"]), limit(r, false)),
            _ => format!("{}{}.5e{}{}", sign, limit(r, false), *r.pick(&["", "-", "+"]), limit(r, false)),
        };
    }
    let mut s = String::from(*r.pick(&["", "", "-", "+", "--", "+-"]));
    s.push_str(*r.pick(&["", "", "0x", "0X", "0", "0b", "0o"]));
    for _ in 0..r.small(3, 60) {
        s.push(*r.pick(&['0', '1', '9', 'f', 'A', '5', '0', '0']));
    }
    if r.chance(1, 3) {
        s.push('.');
        for _ in 0..r.small(2, 400) {
            s.push(*r.pick(&['0', '1', '9', '5']));
        }
    }
    if r.chance(1, 3) {
        s.push(*r.pick(&['e', 'E', 'p', 'P']));
        s.push_str(*r.pick(&["", "-", "+"]));
        for _ in 0..r.small(2, 30) {
            s.push(*r.pick(&['0', '1', '9', '3']));
        }
    }
    s
}

/// Constructs of the schema language at and beyond the supported part.
fn construct(r: &mut Rng) -> String {
    let n = number(r);
    let m = number(r);
    let t = *r.pick(&["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "string", "[int]", "[[string]]", "E", "T", "U", "Z", "a.b.T", "[U]", "[E]", "[T]"]);
    let kind = *r.pick(&[NK::Type, NK::Field, NK::Variant, NK::Ns, NK::Method]);
    let id = rand_name(r, kind, 10);
    let w = *r.pick(&VOCAB);
    match r.below(26) {
        0 => format!("table T {{ x:{} = {}; }}", t, n),
        1 => format!("enum E:{} {{ A = {}, B, C = {}, D }}", t, n, m),
        2 => format!("table T {{}} union U {{ T = {} }} table Q {{ u:U = {}; }}", n, m),
        3 => format!("table T {{ x:{} = {} (id: {}, required); }}", t, w, n),
        4 => format!("struct {} {{ x:{}; y:{}; }} table T {{ s:{}; }}", id, t, t, id),
        5 => format!("struct A {{ b:B; }} struct B {{ a:A; }}"),
        6 => format!("file_identifier \"{}\";", *r.pick(&["ABCD", "AB", "é", "🦀", "ABCDE", "", "\\n"])),
        7 => format!("file_extension \"{}\";", id),
        8 => format!("attribute {}; attribute \"{}\";", id, id),
        9 => format!("table T {{ {}:int; }} {{ {}: {}, y: [1, 2, {{ z: \"q\" }}], w: {} }}", id, id, n, m),
        10 => format!("table {} {{ {}:{}; }} root_type {};", id, id, id, id),
        11 => format!("enum E:int {{ {} }} table T {{ e:E = {}; }} table S {{ e:[E]; }}", id, id),
        12 => format!("namespace {}.{}.{}; table {} {{ x:{}.{}.{}.{}; }}", id, id, id, id, id, id, id, id),
        13 => format!("table T {{}} rpc_service {} {{ {}(T):T (streaming: {}); }}", id, id, w),
        14 => format!("table T {{}} rpc_service S {{ m(T):T (streaming: \"{}\"); n(T):T (streaming); o(Z):T; }}", w),
        15 => format!("union U {{ {} }} table T {{ u:U; v:[U]; }}", *r.pick(&["T", "E", "U", "T,T", "T=0", "T=255,V", "T=256", "T=-1", "None", "int", "string", "a.b.T", "X:T"])),
        16 => format!("enum E:{} {{}} table T {{ e:E; }}", t),
        17 => format!("union U {{}} table T {{ u:U; }}"),
        18 => format!("include \"{}\"; include {}; table T {{}}", id, w),
        19 => format!("/// {}\n/// {}\ntable T {{ /// {}\n x:int; /// trailing\n }} ///", w, n, id),
        20 => format!("table T ({}: {}) {{ x:int ({}, {}: \"{}\"); }}", w, n, id, id, id),
        21 => format!("table A {{ b:B; }} table B {{ c:C; }} table C {{ a:A; d:D; }} {}", if r.bool() { "enum D:int { X }" } else { "" }),
        22 => format!("table {} {{}} table {} {{}} enum {}:int {{ A }} union {} {{ {} }}", id, id, id, id, id),
        23 => format!("table T {{ {}:{}; {}:{}; {}:{}; }}", id, t, id, t, id, t),
        24 => format!("enum E:int {{ {}, {}, {} = {}, }}", id, id, id, n),
        _ => format!("table T {{ a:{}=;b:={};c:[;d:[];e:int=int;f:string=\"x\";g:{}={}; }}", t, n, t, n),
    }
}

fn deep(r: &mut Rng) -> String {
    let d = r.range(1, 64);
    let rep = |a: &str, k: usize| a.repeat(k);
    match r.below(9) {
        0 => format!("table T {{ x:{}int{}; }}", rep("[", d), rep("]", d)),
        1 => format!("table T {{ x:{}T{}; }}", rep("[", d), rep("]", r.range(0, 64))),
        2 => format!("{}{}", rep("{a:", d), rep("}", d)),
        3 => format!("{{a:{}1{}}}", rep("[", d), rep("]", d)),
        4 => format!("{{a:{}1{}}}", rep("[{b:", d / 2), rep("}]", d / 2)),
        5 => {
            // a long chain of declarations, each needing the next
            let n = r.range(2, 300);
            (0..n).map(|i| format!("table T{} {{ x:{}; }}\n", i, if i + 1 < n { format!("T{}", i + 1) } else { "int".into() })).collect()
        }
        6 => {
            let n = r.range(2, 60);
            let ns: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
            format!("namespace {}; table T {{ x:T; y:{}.T; }}", ns.join("."), ns.join("."))
        }
        7 => {
            // enums wait for unions wait for tables, backwards
            let n = r.range(2, 60);
            (0..n).map(|i| format!("union U{} {{ T{} }}\ntable T{} {{ u:U{}; e:E{} = A; }}\nenum E{}:byte {{ A }}\n", i, i, i, (i + 1) % n, i, i)).collect()
        }
        _ => {
            let n = r.range(100, 1500);
            match r.below(3) {
                0 => format!("table T {{ {} }}", (0..n).map(|i| format!("f{}:int = {};", i, i)).collect::<String>()),
                1 => format!("enum E:int {{ {} }}", (0..n).map(|i| format!("V{},", i)).collect::<String>()),
                _ => format!("{}\ntable T {{}}", (0..n).map(|_| "// comment\n").collect::<String>()),
            }
        }
    }
}

fn total(c: &mut Case, text: &[u8]) -> V {
    let gen: Option<Box<dyn RpcGenerator>> = if c.r.bool() { Some(Box::new(Rec::default())) } else { None };
    let (o, w) = compile_with(text, true, gen);
    match o {
        Out::Panic(p) => Err(format!("compiling panicked: {}\n  input {}", p, short(&format!("{:?}", String::from_utf8_lossy(text))))),
        Out::Code(_) => {
            c.st.count("accepted", 1);
            c.st.count("code_bytes", w.len() as u64);
            c.st.seen(text);
            c.st.sample(|| format!("accepted: {:?}", String::from_utf8_lossy(text)));
            Ok(())
        }
        Out::Rejected(e) => {
            c.st.count(
                if e.starts_with("parse failed") {
                    "refused.parse"
                } else if e.starts_with("Parse was") {
                    "refused.incomplete"
                } else if e.starts_with("semantic") {
                    "refused.semantics"
                } else {
                    "refused.other"
                },
                1,
            );
            c.st.seen(text);
            Ok(())
        }
    }
}

pub fn c11(o: Opts) {
    let cases = o.cases;
    let mut rep = Report::new(o, "distinct inputs given to the compiler, each watched for panics, crashes and CPU time").streams(5);
    rep.run("bytes", cases, |c| {
        let n = c.r.small(30, 300);
        let hi = *c.r.pick(&[128usize, 256, 64]);
        let b: Vec<u8> = (0..n).map(|_| c.r.below(hi) as u8).collect();
        total(c, &b)
    });
    rep.run("soup", 3 * cases, |c| {
        let s = soup(&mut c.r);
        total(c, s.as_bytes())
    });
    rep.run("constructs", 3 * cases, |c| {
        let mut s = String::new();
        for _ in 0..c.r.range(1, 3) {
            s.push_str(&construct(&mut c.r));
            s.push('\n');
        }
        if c.r.chance(1, 4) {
            let b = char_mutate(&mut c.r, &s);
            return total(c, &b);
        }
        total(c, s.as_bytes())
    });
    rep.run("mutated", cases, |c| {
        let s = rand_schema(&mut c.r);
        let mut t = tokens(&s, &mut c.r);
        let text = if c.r.bool() {
            tok_mutate(&mut c.r, &mut t);
            if c.r.bool() {
                layout(&mut c.r, &t)
            } else {
                plain(&t)
            }
        } else {
            plain(&t)
        };
        let b = if c.r.bool() { char_mutate(&mut c.r, &text) } else { text.into_bytes() };
        total(c, &b)
    });
    rep.run("deep", cases / 8 + 1, |c| {
        // on the stack a program usually has
        let s = deep(&mut c.r);
        let (ok, msg) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, || match compile(&s) {
                    Out::Panic(p) => (false, p),
                    Out::Code(_) => (true, "accepted".to_string()),
                    Out::Rejected(_) => (true, "refused".to_string()),
                })
                .expect("harness: spawn")
                .join()
                .expect("harness: join")
        });
        if !ok {
            return Err(format!("compiling panicked: {}\n  input {}", msg, short(&s)));
        }
        c.st.count(&msg, 1);
        c.st.seen(s.as_bytes());
        Ok(())
    });
    rep.finish()
}

// ------------------------------------------------------------------- C18

pub fn must(text: &str) -> Result<String, String> {
    match compile(text) {
        Out::Code(c) => Ok(c),
        Out::Rejected(e) => Err(format!("a valid schema was rejected: {}\n{}", e, short(text))),
        Out::Panic(e) => Err(format!("the compiler panicked on a valid schema: {}\n{}", e, short(text))),
    }
}

fn order(c: &mut Case) -> V {
    let mut p = prof("C18");
    p.services = (0, 2);
    let mut s = Schema::generate(&mut c.r, &p);
    let rec = Arc::new(Mutex::new(vec![]));
    let mut base: Option<(Vec<String>, Vec<RpcRec>, String)> = None;
    let n = c.r.range(2, 4);
    for k in 0..n {
        if k > 0 {
            s.permute(&mut c.r);
        }
        let t = tokens(&s, &mut c.r);
        let text = plain(&t);
        rec.lock().unwrap().clear();
        let (o, _) = compile_with(text.as_bytes(), true, Some(Box::new(Rec { calls: rec.clone(), emit: true })));
        let code = match o {
            Out::Code(x) => x,
            Out::Rejected(e) => return Err(format!("order {} of a valid schema was rejected: {}\n{}", k, e, short(&text))),
            Out::Panic(e) => return Err(format!("order {} of a valid schema: panic {}\n{}", k, e, short(&text))),
        };
        let items = rs::canonical(&code)?;
        let mut calls = rec.lock().unwrap().clone();
        calls.sort();
        c.st.count("orders", 1);
        c.st.evaluations += 1;
        c.st.seen(text.as_bytes());
        match &base {
            None => base = Some((items, calls, text)),
            Some((a, rc, ta)) => {
                if let Some(d) = rs::diff(a, &items) {
                    return Err(format!("the order of declarations changes the code: {}\n--- one order\n{}\n--- the other\n{}", d, short(ta), short(&text)));
                }
                if *rc != calls {
                    return Err(format!("the order of declarations changes the services: {:?} / {:?}\n{}", rc, calls, short(&text)));
                }
            }
        }
    }
    c.st.count("items", base.map_or(0, |b| b.0.len() as u64));
    Ok(())
}

pub fn c18(o: Opts) {
    let cases = o.cases;
    let mut rep = Report::new(o, "distinct orders of the declarations of random schemas whose code was compared item by item");
    rep.run("order", cases, order);
    rep.finish()
}

// ------------------------------------------------------------------- C19

fn whitespace(c: &mut Case) -> V {
    let s = rand_schema(&mut c.r);
    let mut t = tokens(&s, &mut c.r);
    let valid = c.r.chance(3, 4);
    if !valid {
        t.retain(|t| !matches!(t, Tok::Doc(_)));
        for _ in 0..c.r.range(1, 2) {
            let i = c.r.below(t.len());
            match c.r.below(3) {
                0 => {
                    t.remove(i);
                }
                1 => {
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                _ => {
                    let j = c.r.below(t.len());
                    t.swap(i, j);
                }
            }
            if t.is_empty() {
                return Ok(());
            }
        }
    }
    let a = plain(&t);
    let base = compile(&a);
    if let Out::Panic(p) = &base {
        return Err(format!("panic: {}\n{}", p, short(&a)));
    }
    if valid {
        if let Out::Rejected(e) = &base {
            return Err(format!("a valid schema was rejected: {}\n{}", e, short(&a)));
        }
    }
    for _ in 0..2 {
        let b = layout(&mut c.r, &t);
        let o = compile(&b);
        c.st.evaluations += 1;
        c.st.seen(b.as_bytes());
        match (&base, &o) {
            (Out::Code(x), Out::Code(y)) => {
                c.st.count("accepted_layouts", 1);
                if x != y {
                    return Err(format!("the layout changes the code\n--- {}\n--- {:?}", short(&a), short(&b)));
                }
            }
            (Out::Rejected(_), Out::Rejected(_)) => c.st.count("refused_layouts", 1),
            (x, y) => {
                let f = |o: &Out| match o {
                    Out::Code(_) => "accepted".to_string(),
                    Out::Rejected(e) => format!("rejected ({})", e),
                    Out::Panic(e) => format!("panic ({})", e),
                };
                return Err(format!("one layout is {}, another {}\n--- {}\n--- {:?}", f(x), f(y), short(&a), short(&b)));
            }
        }
    }
    Ok(())
}

fn docs(c: &mut Case) -> V {
    let mut s = rand_schema(&mut c.r);
    // documentation each line of which occurs once
    let mut n = 0;
    // line -> (names of which the documented thing bears one, those around it)
    let mut at: Vec<(String, Vec<String>, Option<String>, usize)> = vec![];
    fn put(r: &mut Rng, n: &mut usize, d: &mut Vec<String>) {
        d.clear();
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                *n += 1;
                d.push(format!("{}doc {} {}", r.pick(&["", " ", "\t", "/ "]), n, r.pick(&["", "// x", "\"q\"", "table T {", "\\", "}", "*/ /*", "é🦀", "{}", "#[d]", "//!", " "])));
            }
        }
    }
    let env = s.env.clone();
    for (i, t) in env.tables.iter().enumerate() {
        put(&mut c.r, &mut n, &mut s.tdoc[i].0);
        for l in &s.tdoc[i].0 {
            at.push((l.clone(), vec![key(&t.name)], None, n));
        }
        for (k, f) in t.fields.iter().enumerate() {
            put(&mut c.r, &mut n, &mut s.tdoc[i].1[k]);
            for l in &s.tdoc[i].1[k] {
                let mut names = vec![key(&f.name), key(&snake(&f.name))];
                if let Ty::Union(_) = f.ty {
                    names.push(key(&format!("{}_type", f.name)));
                    names.push(key(&model::names::union_type_acc(&f.name)));
                }
                at.push((l.clone(), names, Some(key(&t.name)), n));
            }
        }
    }
    for (i, e) in env.enums.iter().enumerate() {
        put(&mut c.r, &mut n, &mut s.edoc[i].0);
        for l in &s.edoc[i].0 {
            at.push((l.clone(), vec![key(&e.name)], None, n));
        }
        for (k, v) in e.variants.iter().enumerate() {
            put(&mut c.r, &mut n, &mut s.edoc[i].1[k]);
            for l in &s.edoc[i].1[k] {
                at.push((l.clone(), vec![key(&v.0)], Some(key(&e.name)), n));
            }
        }
    }
    for (i, u) in env.unions.iter().enumerate() {
        put(&mut c.r, &mut n, &mut s.udoc[i].0);
        for l in &s.udoc[i].0 {
            at.push((l.clone(), vec![key(&u.name), key(&format!("{}Type", u.name))], None, n));
        }
        for (k, v) in u.variants.iter().enumerate() {
            put(&mut c.r, &mut n, &mut s.udoc[i].1[k]);
            for l in &s.udoc[i].1[k] {
                at.push((l.clone(), vec![key(&env.tables[v.0].name)], Some(key(&u.name)), n));
            }
        }
    }
    let t = tokens(&s, &mut c.r);
    let bare: Vec<Tok> = t.iter().filter(|t| !matches!(t, Tok::Doc(_))).cloned().collect();
    let (with, without) = if c.r.bool() { (plain(&t), plain(&bare)) } else { (layout(&mut c.r, &t), layout(&mut c.r, &bare)) };
    let a = must(&with)?;
    let b = must(&without)?;
    let (fa, found) = rs::strip_docs(&a)?;
    let (fb, _) = rs::strip_docs(&b)?;
    c.st.count("doc_lines", at.len() as u64);
    if !at.is_empty() {
        c.st.seen(with.as_bytes());
    }
    if fa != fb {
        return Err(format!("documentation changes more than documentation\n{}", short(&with)));
    }
    for (line, names, within, _) in &at {
        let w = line.trim();
        let mut n = 0;
        for f in found.iter().filter(|f| f.text.trim() == w) {
            let ok = names.contains(&key(&f.name)) && within.as_ref().map_or(true, |w| key(&f.within) == *w || key(&f.within) == format!("{}type", w) || key(&f.within).starts_with(&w[..]));
            if !ok {
                return Err(format!("the documentation {:?} of {:?} (in {:?}) is found on {} in {}\n{}", line, names, within, f.name, f.within, short(&with)));
            }
            n += 1;
        }
        if n == 0 {
            return Err(format!("the documentation {:?} of {:?} (in {:?}) is lost\n{}", line, names, within, short(&with)));
        }
        c.st.count("doc_attributes", n);
    }
    // every item that bears one line of a comment bears all of them, in order
    let mut i = 0;
    while i < at.len() {
        let mut k = i + 1;
        while k < at.len() && at[k].3 == at[i].3 {
            k += 1;
        }
        let lines: Vec<&str> = at[i..k].iter().map(|x| x.0.trim()).collect();
        let got: Vec<&str> = found.iter().map(|f| f.text.trim()).filter(|x| lines.contains(x)).collect();
        if got.len() % lines.len() != 0 || got.chunks(lines.len()).any(|g| g != &lines[..]) {
            return Err(format!("the documentation {:?} comes out as {:?}\n{}", lines, got, short(&with)));
        }
        c.st.count("doc_comments_in_order", 1);
        i = k;
    }
    Ok(())
}

pub fn c19(o: Opts) {
    let cases = o.cases;
    let mut rep = Report::new(o, "distinct layouts of schemas (with comments, line ends of both styles, documentation) whose code was compared").streams(2);
    rep.run("whitespace", cases, whitespace);
    rep.run("docs", cases, docs);
    rep.finish()
}

// ------------------------------------------------------------------- C23

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MethodRec {
    name: String,
    snake: String,
    req: Vec<String>,
    resp: Vec<String>,
    streaming: String,
    doc: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RpcRec {
    ident: Vec<String>,
    methods: Vec<MethodRec>,
    doc: Vec<String>,
}

/// A service generator that writes down what it is given.
#[derive(Default)]
pub struct Rec {
    pub calls: Arc<Mutex<Vec<RpcRec>>>,
    pub emit: bool,
}

fn parts(q: &ir::QualifiedIdent<'_>) -> Vec<String> {
    q.parts.iter().map(|i| i.raw.to_string()).collect()
}

impl RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &ir::Rpc<'a>, tokens: &mut TokenStream) {
        let methods = rpc.methods.iter().map(|m| MethodRec {
            name: m.ident.raw.to_string(),
            snake: m.snake_ident.raw.to_string(),
            req: parts(&m.request_type),
            resp: parts(&m.response_type),
            streaming: format!("{:?}", m.metadata.streaming),
            doc: m.doc.lines.iter().map(|x| x.to_string()).collect(),
        });
        let r = RpcRec { ident: parts(&rpc.ident), methods: methods.collect(), doc: rpc.doc.lines.iter().map(|x| x.to_string()).collect() };
        if self.emit {
            let tag = format!("SERVICE {}", r.ident.join("."));
            let name = quote::format_ident!("ServiceOf{}", key(&r.ident.join("")));
            let n = r.methods.len();
            tokens.extend(quote::quote! {
                pub struct #name;
                impl #name { pub const TAG: &'static str = #tag; pub const METHODS: usize = #n; }
            });
        }
        self.calls.lock().unwrap().push(r);
    }
}

fn services(c: &mut Case) -> V {
    let p = Prof { services: (0, 4), docs: 8, odd: 5, namespaces: 4, fields: (0, 3), ..Prof::general() };
    let mut s = Schema::generate(&mut c.r, &p);
    // now and then the same service is told apart only by its namespace, and
    // the same table is in all places
    if c.r.chance(1, 4) && s.env.tables.len() > 1 {
        for sv in &mut s.services {
            for m in &mut sv.methods {
                if c.r.bool() {
                    m.resp = m.req;
                }
            }
        }
    }
    let t = tokens(&s, &mut c.r);
    let text = if c.r.bool() { plain(&t) } else { layout(&mut c.r, &t) };
    let calls = Arc::new(Mutex::new(vec![]));
    let (o, _) = compile_with(text.as_bytes(), true, Some(Box::new(Rec { calls: calls.clone(), emit: true })));
    let code = match o {
        Out::Code(x) => x,
        Out::Rejected(e) => return Err(format!("a valid schema was rejected: {}\n{}", e, short(&text))),
        Out::Panic(e) => return Err(format!("panic: {}\n{}", e, short(&text))),
    };
    let fixed = |ns: &[String], n: &str| -> Vec<String> { ns.iter().map(|x| fix(x)).chain(std::iter::once(fix(n))).collect() };
    let trim = |d: &[String]| -> Vec<String> { d.iter().map(|x| x.trim().to_string()).collect() };
    let mut want: Vec<RpcRec> = s
        .services
        .iter()
        .map(|sv| RpcRec {
            ident: fixed(&sv.ns, &sv.name),
            doc: trim(&sv.doc),
            methods: sv
                .methods
                .iter()
                .map(|m| {
                    let (q, p) = (&s.env.tables[m.req], &s.env.tables[m.resp]);
                    MethodRec {
                        name: fix(&m.name),
                        snake: snake(&m.name),
                        req: fixed(&q.ns, &q.name),
                        resp: fixed(&p.ns, &p.name),
                        streaming: match m.streaming {
                            None => "None",
                            Some("client") => "Client",
                            Some("server") => "Server",
                            _ => "Bidi",
                        }
                        .into(),
                        doc: trim(&m.doc),
                    }
                })
                .collect(),
        })
        .collect();
    let mut got = calls.lock().unwrap().clone();
    for g in &mut got {
        g.doc = trim(&g.doc);
        for m in &mut g.methods {
            m.doc = trim(&m.doc);
        }
    }
    want.sort();
    got.sort();
    c.st.count("services", want.len() as u64);
    c.st.count("methods", want.iter().map(|w| w.methods.len() as u64).sum());
    if !want.is_empty() {
        c.st.seen(text.as_bytes());
        c.st.sample(|| format!("{:?}", want[0]));
    }
    if want != got {
        let d = want.iter().zip(&got).find(|(a, b)| a != b).map_or_else(|| format!("{} calls for {} services", got.len(), want.len()), |(a, b)| format!("declared {:?}, given {:?}", a, b));
        return Err(format!("the service generator was not given the services of the schema: {}\n{}", d, short(&text)));
    }
    // what it emitted is in the namespace of the service
    let tags = rs::consts(&code)?;
    for sv in &s.services {
        let tag = format!("SERVICE {}", fixed(&sv.ns, &sv.name).join("."));
        let home: Vec<String> = sv.ns.iter().map(|x| snake(x)).collect();
        let places: Vec<&Vec<String>> = tags.iter().filter(|t| t.1 == tag).map(|t| &t.0).collect();
        if places.len() != 1 || *places[0] != home {
            return Err(format!("the code of service {} belongs in {:?} and is found in {:?}\n{}", tag, home, places, short(&text)));
        }
    }
    // the rest is what it is without services
    let plain_code = must(&text)?;
    let without = Schema { services: vec![], items: s.items.iter().filter(|i| !matches!(i, Item::Service(_))).cloned().collect(), ..s.clone() };
    let tw = plain(&tokens(&without, &mut c.r));
    if without.items.is_empty() {
        return Ok(());
    }
    let w = must(&tw)?;
    let a = rs::canonical(&plain_code)?;
    let b = rs::canonical(&w)?;
    let e: Vec<String> = rs::canonical(&code)?.into_iter().filter(|i| !i.contains("ServiceOf")).collect();
    // the namespace of a service may hold nothing else
    let real = |x: Vec<String>| -> Vec<String> { x };
    let (a, b, e) = (real(a), real(b), real(e));
    if let Some(d) = rs::diff(&a, &b) {
        return Err(format!("services change the code without a generator: {}\n{}", d, short(&text)));
    }
    if let Some(d) = rs::diff(&a, &e) {
        return Err(format!("a service generator changes other code: {}\n{}", d, short(&text)));
    }
    Ok(())
}

pub fn c23(o: Opts) {
    let cases = o.cases;
    let mut rep = Report::new(o, "distinct schemas with services compiled with a recording service generator, whose record was compared with the schema");
    rep.run("services", cases, services);
    rep.finish()
}

// ------------------------------------------------------------------- C22

/// A fresh name nothing in the schema bears.
fn unknown_name(r: &mut Rng) -> String {
    format!("Zq{}{}", rand_name(r, NK::Type, 0), 9000 + r.below(1000))
}

/// Positions of the type references of table fields among the tokens: those
/// of single names and those inside vectors.
fn type_positions(t: &[Tok]) -> Vec<usize> {
    let mut out = vec![];
    let mut in_table = false;
    for i in 0..t.len() {
        match &t[i] {
            Tok::W(w) if w == "table" && matches!(t.get(i + 1), Some(Tok::W(_))) && (i == 0 || matches!(t[i - 1], Tok::P(';') | Tok::P('}') | Tok::Doc(_))) => {
                in_table = true
            }
            Tok::P('}') => in_table = false,
            Tok::P(':') if in_table => {
                let mut k = i + 1;
                while t.get(k) == Some(&Tok::P('[')) {
                    k += 1;
                }
                // not a value in metadata
                let name_before = i >= 2 && matches!(t[i - 2], Tok::P('{') | Tok::P(';') | Tok::Doc(_));
                if name_before && matches!(t.get(k), Some(Tok::W(_))) {
                    out.push(k);
                }
            }
            _ => {}
        }
    }
    out
}

fn bad_int(r: &mut Rng, st: ST) -> String {
    let (lo, hi) = (st.min(), st.max());
    let v = match r.below(6) {
        0 => hi + 1,
        1 => lo - 1,
        2 => hi + 1 + r.below(1000) as i128,
        3 => lo - 1 - r.below(1000) as i128,
        4 => (hi + 1) * 2,
        _ => 1i128 << 64,
    };
    int_lit(r, v)
}

/// A literal no field of this type can have.
fn bad_default(r: &mut Rng, env: &Env, ty: &Ty) -> String {
    let float = |r: &mut Rng| (*r.pick(&["1.5", "0.0", "1e3", "-.5", "0x1p2", "nan", "-inf", "2."])).to_string();
    match ty {
        Ty::S(ST::Bool) => match r.below(3) {
            0 => float(r),
            1 => unknown_name(r),
            _ => {
                let v = 2 + r.below(300) as i128;
                int_lit(r, v)
            }
        },
        Ty::S(st) if st.is_float() => match r.below(3) {
            0 if *st == ST::F32 => (*r.pick(&["1e39", "-4e38", "3.5e38", "1e300", "-0x1p128"])).to_string(),
            1 => (*r.pick(&["true", "false"])).to_string(),
            _ => unknown_name(r),
        },
        Ty::S(st) => match r.below(5) {
            0 => float(r),
            1 => (*r.pick(&["true", "false"])).to_string(),
            2 => unknown_name(r),
            _ => bad_int(r, *st),
        },
        Ty::Enum(e) => match r.below(4) {
            0 => float(r),
            1 => (*r.pick(&["true", "false"])).to_string(),
            _ => {
                // a variant of another enum, or of none
                let mine = &env.enums[*e].variants;
                let others: Vec<&String> = env.enums.iter().flat_map(|x| x.variants.iter().map(|v| &v.0)).filter(|n| !mine.iter().any(|m| fix(&m.0) == fix(n))).collect();
                if others.is_empty() || r.bool() {
                    unknown_name(r)
                } else {
                    (*r.pick(&others)).clone()
                }
            }
        },
        _ => match r.below(3) {
            0 => "0".into(),
            1 => (*r.pick(&["true", "1.5", "-3", "nan"])).to_string(),
            _ => unknown_name(r),
        },
    }
}

/// Puts some tokens between two declarations.
fn insert_top(r: &mut Rng, t: &mut Vec<Tok>, new: &str) {
    let mut depth = 0;
    let mut at = vec![0];
    let mut after_include = 0;
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::P('{') => depth += 1,
            Tok::P('}') => {
                depth -= 1;
                if depth == 0 {
                    at.push(i + 1)
                }
            }
            Tok::P(';') if depth == 0 => {
                at.push(i + 1);
                if i >= 2 && t[i - 2] == Tok::W("include".into()) {
                    after_include = i + 1;
                }
            }
            _ => {}
        }
    }
    at.retain(|i| *i >= after_include);
    let i = *r.pick(&at);
    t.insert(i, Tok::W(format!(" {} ", new)));
}

/// A declaration that starts with this word.
fn top_word(r: &mut Rng, t: &[Tok], w: &str) -> Option<usize> {
    let mut depth = 0;
    let mut at = vec![];
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::P('{') => depth += 1,
            Tok::P('}') => depth -= 1,
            Tok::W(x) if x == w && depth == 0 && (i == 0 || matches!(t[i - 1], Tok::P(';') | Tok::P('}') | Tok::Doc(_))) => at.push(i),
            _ => {}
        }
    }
    if at.is_empty() {
        None
    } else {
        Some(*r.pick(&at))
    }
}

/// Where the declaration stands of which the tokens are wanted.
fn of_kind(s: &Schema, k: usize) -> Vec<Item> {
    s.items
        .iter()
        .filter(|i| match i {
            Item::Table(_) => k == 0,
            Item::Enum(_) => k == 1,
            Item::Union(_) => k == 2,
            Item::Service(_) => k == 3,
            Item::Root(_) => k == 4,
        })
        .cloned()
        .collect()
}

/// Gives a valid schema one defect. None: this one does not apply here.
fn defect(r: &mut Rng, s: &mut Schema, kind: usize) -> Option<(String, &'static str)> {
    let z = unknown_name(r);
    let done = |t: Vec<Tok>, what: &'static str| Some((plain(&t), what));
    match kind {
        // ---- references to types that do not exist
        0 => {
            let mut t = tokens(s, r);
            let at = type_positions(&t);
            if at.is_empty() {
                return None;
            }
            let i = *r.pick(&at);
            // a qualified name keeps its other parts
            if r.bool() && matches!(t.get(i + 1), Some(Tok::P('.'))) {
                let mut k = i;
                while t.get(k + 1) == Some(&Tok::P('.')) {
                    k += 2;
                }
                t[k] = Tok::W(z);
            } else {
                t[i] = Tok::W(z);
            }
            done(t, "a field of an undefined type")
        }
        1 => {
            let us = of_kind(s, 2);
            if us.is_empty() {
                return None;
            }
            let mut t = tokens(s, r);
            let i = top_word(r, &t, "union")?;
            let k = (i..t.len()).find(|k| t[*k] == Tok::P('{'))?;
            let k = (k..t.len()).find(|k| matches!(t[*k], Tok::W(_)))?;
            t[k] = Tok::W(z);
            done(t, "a union variant that is not defined")
        }
        2 => {
            let mut t = tokens(s, r);
            insert_top(r, &mut t, &format!("root_type {};", z));
            done(t, "an undefined root type")
        }
        3 => {
            let mut t = tokens(s, r);
            let i = top_word(r, &t, "rpc_service")?;
            let k = (i..t.len()).find(|k| t[*k] == Tok::P('{'))?;
            let open = (k..t.len()).find(|k| t[*k] == Tok::P('('))?;
            let close = (open..t.len()).find(|k| t[*k] == Tok::P(')'))?;
            if r.bool() {
                t[close - 1] = Tok::W(z);
            } else {
                let mut k = close + 2;
                while t.get(k + 1) == Some(&Tok::P('.')) {
                    k += 2;
                }
                t[k] = Tok::W(z);
            }
            done(t, "an undefined service message")
        }
        // a type of another namespace by its bare name
        4 => {
            let from = s.env.tables.iter().position(|t| !t.ns.is_empty())?;
            let ns = s.env.tables[from].ns.clone();
            let mut names: Vec<(Vec<String>, String)> = s.env.tables.iter().map(|t| (t.ns.clone(), t.name.clone())).collect();
            names.extend(s.env.enums.iter().map(|t| (t.ns.clone(), t.name.clone())));
            names.extend(s.env.unions.iter().map(|t| (t.ns.clone(), t.name.clone())));
            let other: Vec<String> = names
                .iter()
                .filter(|(n, x)| *n != ns && !names.iter().any(|(m, y)| *m == ns && fix(y) == fix(x)))
                .map(|x| x.1.clone())
                .collect();
            if other.is_empty() {
                return None;
            }
            let o = r.pick(&other).clone();
            let mut t = tokens(s, r);
            t.push(Tok::W(format!("namespace {}; table {} {{ q:{}{}{}; }}", ns.join("."), z, if r.bool() { "[" } else { " " }, o, "")));
            if let Some(Tok::W(w)) = t.last_mut() {
                if w.contains('[') {
                    *w = w.replace("; }", "]; }");
                }
            }
            done(t, "a type of another namespace named without it")
        }
        // ---- definitions that occur twice
        5 => {
            let mut c: Vec<Item> = of_kind(s, 0);
            c.extend(of_kind(s, 1));
            c.extend(of_kind(s, 2));
            let it = *r.pick(&c);
            s.items.push(it);
            s.permute(r);
            done(tokens(s, r), "a type defined twice")
        }
        6 => {
            // under the same name but of another kind
            let mut c: Vec<(Vec<String>, String)> = s.env.tables.iter().map(|t| (t.ns.clone(), t.name.clone())).collect();
            c.extend(s.env.enums.iter().map(|t| (t.ns.clone(), t.name.clone())));
            c.extend(s.env.unions.iter().map(|t| (t.ns.clone(), t.name.clone())));
            let (ns, n) = r.pick(&c).clone();
            let new = match r.below(3) {
                0 => format!("table {} {{ }}", n),
                1 => format!("enum {}:int {{ A }}", n),
                _ => format!("table {} {{}} union {} {{ {} }}", z, n, z),
            };
            let mut t = tokens(s, r);
            if ns.is_empty() {
                t.insert(0, Tok::W(new));
                if t.get(1) == Some(&Tok::W("include".into())) {
                    return None;
                }
            } else {
                t.push(Tok::W(format!("namespace {}; {}", ns.join("."), new)));
            }
            done(t, "one name for two types")
        }
        // ---- enums
        7 => {
            let mut t = tokens(s, r);
            let b = *r.pick(&["float", "double", "bool", "string", "float32", "float64", "[int]", "[ubyte]"]);
            if !s.env.enums.is_empty() && r.bool() {
                let i = top_word(r, &t, "enum")?;
                if !matches!((t.get(i + 1), t.get(i + 2), t.get(i + 3)), (Some(Tok::W(_)), Some(Tok::P(':')), Some(Tok::W(_)))) {
                    return None;
                }
                t[i + 3] = Tok::W(b.into());
            } else {
                let b = if r.chance(1, 3) {
                    s.env.tables[0].name.clone()
                } else {
                    b.into()
                };
                insert_top(r, &mut t, &format!("enum {}:{} {{ A, B }}", z, b));
            }
            done(t, "an enum with a base type that is no integer")
        }
        8 => {
            let e = s.env.enums.iter().position(|e| e.variants.len() > 1)?;
            let n = s.env.enums[e].variants.len();
            let i = r.range(1, n - 1);
            let j = r.below(i);
            let v = s.env.enums[e].variants[j].2;
            s.env.enums[e].variants[i].1 = Some(v);
            done(tokens(s, r), "two enum variants with one value")
        }
        9 => {
            // an implicit value that meets an explicit one
            let n = r.range(1, 6);
            let b = *r.pick(&["byte", "ubyte", "short", "int", "uint", "long", "ulong"]);
            let vs: Vec<String> = (0..n).map(|i| format!("V{}", i)).collect();
            let mut t = tokens(s, r);
            let new = if r.bool() {
                format!("enum {}:{} {{ W = {}, {} }}", z, b, n - 1 + r.below(2).min(0), vs.join(", ").replacen("V0", "V0 = 0", 1))
            } else {
                format!("enum {}:{} {{ {}, W = {}, {} }}", z, b, vs.join(", "), n + 3, "X = 1, Y = 2, Z = 1")
            };
            insert_top(r, &mut t, &new);
            done(t, "an implicit variant value that is already used")
        }
        10 => {
            let e = r.below(s.env.enums.len().max(1));
            let en = s.env.enums.get(e)?;
            let b = en.base;
            let i = r.below(en.variants.len());
            let v = match r.below(4) {
                0 => b.max() + 1,
                1 => b.min() - 1,
                2 => b.max() + 1 + r.below(300) as i128,
                _ => b.min() - 1 - r.below(300) as i128,
            };
            s.env.enums[e].variants[i].1 = Some(v);
            done(tokens(s, r), "an enum value outside the base type")
        }
        11 => {
            // an implicit value that runs out of the base type
            let st = *r.pick(&INT_ST);
            let w = *r.pick(type_words(st));
            let l = int_lit(r, st.max());
            let k = r.below(3);
            let mut t = tokens(s, r);
            let pre: String = (0..k).map(|i| format!("P{}, ", i)).collect();
            insert_top(r, &mut t, &format!("enum {}:{} {{ {}A = {}, B }}", z, w, pre, l));
            done(t, "an implicit enum value outside the base type")
        }
        // ---- unions
        12 => {
            let u = r.below(s.env.unions.len().max(1));
            let un = s.env.unions.get(u)?;
            let n = un.variants.len();
            let i = r.below(n);
            let v = match r.below(5) {
                0 => 256,
                1 => -1 - r.below(200) as i128,
                2 => 256 + r.below(1000) as i128,
                3 => 0,
                _ => {
                    if i == 0 {
                        0
                    } else {
                        i128::from(un.variants[r.below(i)].2)
                    }
                }
            };
            s.env.unions[u].variants[i].1 = Some(v);
            done(tokens(s, r), "a union variant with a value outside 1..255 or used twice")
        }
        13 => {
            let mut t = tokens(s, r);
            let y = format!("{}x", z);
            let decl = match r.below(4) {
                0 => format!("enum {}:int {{ A }}", y),
                1 => format!("table {}t {{}} union {} {{ {}t }}", y, y, y),
                2 => format!("struct {} {{ x:int; }}", y),
                _ => String::new(),
            };
            let var = if decl.is_empty() { (*r.pick(&["int", "ubyte", "bool", "double"])).to_string() } else { y };
            let tt = format!("{}y", z);
            let body = match r.below(3) {
                0 => var.clone(),
                1 => format!("{}, {}", tt, var),
                _ => format!("{}, {}", var, tt),
            };
            let un = format!("table {} {{}} union {} {{ {} }}", tt, z, body);
            let new = if r.bool() { format!("{} {}", decl, un) } else { format!("{} {}", un, decl) };
            insert_top(r, &mut t, &new);
            done(t, "something other than a table in a union")
        }
        // ---- roots and services
        14 => {
            let mut t = tokens(s, r);
            let decl = match r.below(3) {
                0 => format!("enum {}:int {{ A }}", z),
                1 => format!("table {}t {{}} union {} {{ {}t }}", z, z, z),
                _ => format!("struct {} {{ x:int; }}", z),
            };
            let root = format!("root_type {};", z);
            let new = if r.bool() { format!("{} {}", decl, root) } else { format!("{} {}", root, decl) };
            insert_top(r, &mut t, &new);
            done(t, "a root type that is no table")
        }
        15 => {
            let mut t = tokens(s, r);
            let decl = match r.below(2) {
                0 => format!("enum {}:int {{ A }}", z),
                _ => format!("table {}t {{}} union {} {{ {}t }}", z, z, z),
            };
            let tt = format!("{}m", z);
            let ok = format!("a({}):{};", tt, tt);
            let m = if r.bool() { format!("b({}):{};", z, tt) } else { format!("b({}):{};", tt, z) };
            let body = match r.below(3) {
                0 => m,
                1 => format!("{} {}", ok, m),
                _ => format!("{} {}", m, ok.replace("a(", "c(")),
            };
            insert_top(r, &mut t, &format!("{} table {} {{}} rpc_service {}s {{ {} }}", decl, tt, z, body));
            done(t, "a service message that is no table")
        }
        16 => {
            let sv = s.services.iter().position(|x| !x.methods.is_empty())?;
            let m = r.below(s.services[sv].methods.len());
            s.services[sv].methods[m].streaming = Some(*r.pick(&["Client", "both", "", "client ", "none", "bidirectional", "SERVER", "bid", "bidii", "unary"]));
            done(tokens(s, r), "an unknown streaming mode")
        }
        17 => {
            let mut t = tokens(s, r);
            let tt = format!("{}m", z);
            let md = *r.pick(&["streaming", "streaming: 1", "streaming: 1.5", "streaming: true", "streaming, idempotent", "idempotent, streaming", "idempotent, streaming: 0", "x: \"client\", streaming"]);
            insert_top(r, &mut t, &format!("table {} {{}} rpc_service {}s {{ a({}):{} ({}); }}", tt, z, tt, tt, md));
            done(t, "a missing streaming mode")
        }
        // ---- defaults
        18 | 19 | 20 => {
            let ts: Vec<usize> = (0..s.env.tables.len()).filter(|i| !s.env.tables[*i].fields.is_empty()).collect();
            if ts.is_empty() {
                return None;
            }
            let i = *r.pick(&ts);
            let k = r.below(s.env.tables[i].fields.len());
            let ty = s.env.tables[i].fields[k].ty.clone();
            s.lits[i][k] = Some(bad_default(r, &s.env, &ty));
            done(tokens(s, r), "a default the type of the field cannot hold")
        }
        // ---- structs
        21 => {
            let mut t = tokens(s, r);
            let tt = format!("{}m", z);
            let bad = match r.below(4) {
                0 => "string".to_string(),
                1 => "[int]".into(),
                2 => tt.clone(),
                _ => "[string]".into(),
            };
            let ok = "a:int; b:ubyte;";
            let body = match r.below(3) {
                0 => format!("x:{};", bad),
                1 => format!("{} x:{};", ok, bad),
                _ => format!("x:{}; {}", bad, ok),
            };
            insert_top(r, &mut t, &format!("table {} {{}} struct {} {{ {} }}", tt, z, body));
            done(t, "a struct with a member that is no scalar")
        }
        // ---- text outside the grammar
        22 => {
            let mut t = tokens(s, r);
            let c: Vec<usize> = (0..t.len())
                .filter(|i| match &t[*i] {
                    // the comma after the last variant may go
                    Tok::P(',') => !matches!(t.get(i + 1), Some(Tok::P('}'))),
                    Tok::P(_) => true,
                    _ => false,
                })
                .collect();
            let i = *r.pick(&c);
            t.remove(i);
            done(t, "a missing punctuation character")
        }
        23 => {
            let mut t = tokens(s, r);
            let i = r.below(t.len() + 1);
            // not between documentation and what it documents: nothing there changes the verdict
            t.insert(i, Tok::P(*r.pick(&['{', '}', '(', ')', '[', ']', '@', '$', '%', '^', '&', '*', '~', '?', '|', '<', '>', '\\', '`', '!', '\''])));
            done(t, "a stray character")
        }
        24 => {
            let mut t = tokens(s, r);
            let new = match r.below(12) {
                0 => "tabel X {}".into(),
                1 => format!("table {}", z),
                2 => "table { x:int; }".into(),
                3 => format!("table {} {{ x:; }}", z),
                4 => format!("table {} {{ x int; }}", z),
                5 => format!("table {} {{ x:int }}", z),
                6 => format!("table {} {{ 9x:int; }}", z),
                7 => format!("enum {} {{ A }}", z),
                8 => format!("enum {}:int {{ A B }}", z),
                9 => format!("table {} {{ x:int = ; }}", z),
                10 => "namespace ;".into(),
                _ => format!("table {} {{ x:[int; }}", z),
            };
            insert_top(r, &mut t, &new);
            done(t, "text outside the grammar")
        }
        25 => {
            let mut text = plain(&tokens(s, r));
            text.push_str(*r.pick(&["garbage", "}", "x", "table", "table Q {", "enum E:int { A", "\"", "/", "/* comment */", "namespace a.b", "0", ";", "///", "= 3;"]));
            if text.ends_with("///") {
                // documentation of nothing at the end of the file; not claimed
                return None;
            }
            Some((text, "text after the last declaration"))
        }
        26 => {
            // cut off inside a declaration
            let t = tokens(s, r);
            let mut depth = 0;
            let mut c = vec![];
            for (i, x) in t.iter().enumerate() {
                match x {
                    Tok::P('{') => depth += 1,
                    Tok::P('}') => depth -= 1,
                    _ => {}
                }
                if depth > 0 {
                    c.push(i);
                }
            }
            let i = *r.pick(&c);
            done(t[..i + 1].to_vec(), "a declaration that does not end")
        }
        // ---- constructs for which there is no code
        27 => {
            let mut t = tokens(s, r);
            let v = *r.pick(&["[@]", "[[@]]", "[ @ ]", "[[[@]]]"]);
            // a union of the schema, or one declared before or after
            if !s.env.unions.is_empty() && r.bool() {
                let u = r.pick(&s.env.unions).clone();
                let q: String = u.ns.iter().map(|x| format!("{}.", x)).collect::<String>() + &u.name;
                if u.ns.is_empty() {
                    if t.get(0) == Some(&Tok::W("include".into())) {
                        return None;
                    }
                    t.insert(0, Tok::W(format!("table {} {{ q:{}; }} ", z, v.replace('@', &q))));
                } else {
                    t.push(Tok::W(format!("namespace {}; table {} {{ p:int; q:{}; }}", if r.bool() { u.ns.join(".") } else { z.clone() }, z, v.replace('@', &q))));
                }
            } else {
                let tb = format!("table {} {{ {}q:{}{}; }} ", z, *r.pick(&["", "a:string; "]), v.replace('@', &format!("{}u", z)), *r.pick(&["", " (required)"]));
                let un = format!("union {}u {{ {} }} ", z, z);
                let new = if r.bool() { tb + &un } else { un + &tb };
                insert_top(r, &mut t, &new);
            }
            done(t, "a vector of unions")
        }
        28 => {
            let mut t = tokens(s, r);
            let new = match r.below(8) {
                0 => format!("struct {} {{ x:int; y:[float]; }}", z),
                1 => format!("struct {} {{ x:int; }}", z),
                2 => format!("struct {} {{ x:int; y:double; }} table {}t {{ s:{}; }}", z, z, z),
                3 => "file_identifier \"ABCD\";".into(),
                4 => "file_extension \"abc\";".into(),
                5 => format!("attribute \"{}\";", z),
                6 => format!("attribute {};", z),
                _ => (*r.pick(&["{ a: 1 }", "{}", "{ a: [1, 2], b: { c: \"d\" } }"])).to_string(),
            };
            insert_top(r, &mut t, &new);
            done(t, "a construct that is not supported")
        }
        29 => {
            // white to the eye or to the editor, but no token and no whitespace
            let c = *r.pick(&[
                '\0', '\x01', '\x07', '\x08', '\x0b', '\x0c', '\x1a', '\x1b', '\x7f', '\u{85}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{3000}', '\u{fffd}', '@', '#', '$',
                '?', '`', '\\', '\'', '!', '%', '&', '|', '~', '^', '<', '>',
            ]);
            let mut t = tokens(s, r);
            if r.chance(1, 3) {
                let mut text = plain(&t);
                text.push(c);
                return Some((text, "a character that belongs to no token, at the end"));
            }
            t.insert(r.below(t.len() + 1), Tok::W(c.to_string()));
            done(t, "a character that belongs to no token")
        }
        30 => {
            // lists without a single entry, or with an empty one
            let (p, q) = (*r.pick(&["", "X", "X, Y"]), *r.pick(&["X", "X, Y"]));
            let new = match r.below(8) {
                0 => format!("rpc_service {} {{ }}", z),
                1 => format!("enum {}:{} {{ }}", z, *r.pick(&["int", "ubyte", "long"])),
                2 => format!("union {} {{ }}", z),
                3 => format!("enum {}:int {{ {} , , {} }}", z, p, q),
                4 => format!("table X{} {{}} table Y{} {{}} union {} {{ X{} , , Y{} }}", z, z, z, z, z),
                5 => format!("table {} {{ ; }}", z),
                6 => format!("table {} {{ f:[ ]; }}", z),
                _ => format!("table {} {{ f:int; ; g:int; }}", z),
            };
            let new = if r.bool() { new.replace("{ }", "{}").replace("[ ]", "[]") } else { new };
            let mut t = tokens(s, r);
            insert_top(r, &mut t, &new);
            done(t, "an empty list or an empty entry in one")
        }
        _ => None,
    }
}

const DEFECTS: usize = 31;

fn reject(c: &mut Case) -> V {
    let mut s = rand_schema(&mut c.r);
    let kind = c.r.below(DEFECTS);
    let orig = s.clone();
    let (text, what) = match defect(&mut c.r, &mut s, kind) {
        Some(x) => x,
        None => {
            c.st.count("not_applicable", 1);
            return Ok(());
        }
    };
    drop(orig);
    let (o, w) = compile_with(text.as_bytes(), true, None);
    match o {
        Out::Rejected(_) => {
            if !w.is_empty() {
                return Err(format!("{}: rejected, but {} bytes of code were written\n{}", what, w.len(), short(&text)));
            }
            c.st.count(&format!("rejected.{}", what.replace(' ', "_")), 1);
            c.st.seen(text.as_bytes());
            Ok(())
        }
        Out::Code(_) => Err(format!("{} was accepted\n{}", what, short(&text))),
        Out::Panic(p) => Err(format!("{}: panic {}\n{}", what, p, short(&text))),
    }
}

/// Damages the text of a valid schema at random; if an independent
/// recogniser finds the result outside the grammar, it must be rejected.
fn damaged(c: &mut Case) -> V {
    let s = rand_schema(&mut c.r);
    let r = &mut c.r;
    let mut t = tokens(&s, r);
    if t.is_empty() {
        return Ok(());
    }
    const WORDS: [&str; 34] = [
        "table", "struct", "enum", "union", "namespace", "root_type", "rpc_service", "include", "int", "string", "bool", "ubyte", "float", "true", "false", "inf", "nan",
        "-inf", "0", "1", "-1", "255", "0xFF", "1e5", ".5", "5.", "0x1p3", "required", "streaming", "A", "foo", "_", "type", "X9",
    ];
    let mut what = vec![];
    let by_token = r.chance(2, 3);
    if by_token {
        for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 3]) {
            let i = r.below(t.len());
            match r.below(7) {
                0 | 1 if t.len() > 1 => {
                    what.push("token removed");
                    t.remove(i);
                }
                2 => {
                    what.push("token doubled");
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                3 if i + 1 < t.len() => {
                    what.push("tokens swapped");
                    t.swap(i, i + 1);
                }
                4 => {
                    what.push("token replaced");
                    let j = r.below(t.len());
                    t[i] = t[j].clone();
                }
                k => {
                    what.push("token inserted");
                    let x = match r.below(3) {
                        0 => Tok::W((*r.pick(&WORDS)).into()),
                        1 => Tok::P(*r.pick(&['{', '}', '(', ')', '[', ']', ':', ';', ',', '.', '=', '-', '+', '/', '*', '#', '|', '<', '@'])),
                        _ if r.chance(1, 6) => Tok::S("\"s\"".into()),
                        _ => {
                            let j = r.below(t.len());
                            t[j].clone()
                        }
                    };
                    if k == 5 {
                        t[i] = x;
                    } else {
                        t.insert(i, x);
                    }
                }
            }
        }
    }
    let mut text = if r.chance(3, 4) { plain(&t) } else { layout(r, &t) };
    if !by_token {
        let mut ch: Vec<char> = text.chars().collect();
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            let i = r.below(ch.len());
            let x = match r.below(3) {
                0 => *r.pick(&['{', '}', '(', ')', '[', ']', ':', ';', ',', '.', '=', '-', '+', '/', '"', '#', '&', '\\', '\'', '!', '~']),
                1 => ch[r.below(ch.len())],
                _ => *r.pick(&['a', 'Z', '_', '0', '9', 'e', 'x', 'p', ' ', '\n']),
            };
            match r.below(5) {
                0 | 1 => {
                    what.push("character removed");
                    // white space most of all: it glues words together
                    let sp: Vec<usize> = (0..ch.len()).filter(|k| matches!(ch[*k], ' ' | '\n' | '\t')).collect();
                    let i = if !sp.is_empty() && r.bool() { *r.pick(&sp) } else { i };
                    if ch.len() > 1 {
                        ch.remove(i);
                    }
                }
                2 => {
                    what.push("character changed");
                    ch[i] = x;
                }
                3 => {
                    what.push("letter's case changed");
                    let k = (i..ch.len()).find(|k| ch[*k].is_ascii_alphabetic()).unwrap_or(i);
                    let y = ch[k];
                    ch[k] = if y.is_ascii_lowercase() { y.to_ascii_uppercase() } else { y.to_ascii_lowercase() };
                }
                _ => {
                    what.push("character inserted");
                    ch.insert(i, x);
                }
            }
        }
        text = ch.into_iter().collect();
    }
    let v = grammar::judge(&text);
    if v != Verdict::Outside {
        c.st.count(if v == Verdict::Inside { "damaged.still_in_the_grammar" } else { "damaged.not_judged" }, 1);
        return Ok(());
    }
    match compile_with(text.as_bytes(), true, None) {
        (Out::Rejected(_), w) if w.is_empty() => {}
        (Out::Rejected(_), w) => return Err(format!("outside the grammar ({}): rejected, but {} bytes of code were written\n{}", what.join(", "), w.len(), short(&text))),
        (Out::Code(_), _) => return Err(format!("text outside the grammar ({}) was accepted\n{}", what.join(", "), short(&text))),
        (Out::Panic(p), _) => return Err(format!("text outside the grammar ({}): panic {}\n{}", what.join(", "), p, short(&text))),
    }
    for w in what {
        c.st.count(&format!("damaged.rejected.{}", w.replace(' ', "_")), 1);
    }
    c.st.seen(text.as_bytes());
    Ok(())
}

fn accept(c: &mut Case) -> V {
    let s = rand_schema(&mut c.r);
    let t = tokens(&s, &mut c.r);
    let text = if c.r.bool() { plain(&t) } else { layout(&mut c.r, &t) };
    let code = must(&text)?;
    if grammar::judge(&text) == Verdict::Outside {
        c.st.count("recogniser_disagrees", 1);
    }
    c.st.seen(text.as_bytes());
    c.st.count("accepted", 1);
    c.st.count("declarations", s.items.len() as u64);
    c.st.sample(|| text.clone());
    if code.trim().is_empty() && s.items.iter().any(|i| matches!(i, Item::Table(_) | Item::Enum(_))) {
        return Err(format!("no code was generated\n{}", short(&text)));
    }
    Ok(())
}

/// Long enums and unions whose implicit values stay just inside, or run out
/// of, the base type; the verdict follows from counting.
fn limits(c: &mut Case) -> V {
    let r = &mut c.r;
    let union = r.bool();
    let (lo, hi, word): (i128, i128, &str) = if union {
        (1, 255, "")
    } else {
        let st = *r.pick(&[ST::U8, ST::I8, ST::I8, ST::U16, ST::I16, ST::I32, ST::U64, ST::I64]);
        (st.min(), st.max(), *r.pick(type_words(st)))
    };
    let over = r.bool();
    // runs of implicit values after an explicit start; the last run may overrun
    let top = hi + i128::from(over);
    let whole = hi - lo < 256 && r.bool();
    let first = if union { 1 } else { 0 };
    let mut vals: Vec<(Option<i128>, i128)> = vec![];
    if whole {
        let mut v = if !union && lo < 0 { lo } else { first };
        vals.push((if v == first { None } else { Some(v) }, v));
        while v < top {
            v += 1;
            vals.push((if v == first && r.bool() { Some(v) } else { None }, v));
        }
    } else {
        let pre = r.below(5) as i128;
        for k in 0..pre {
            vals.push((None, first + k));
        }
        let tail = 1 + r.below(40) as i128;
        let v = (top - tail).max(first + pre + 1);
        vals.push((Some(v), v));
        for k in v + 1..=top {
            vals.push((None, k));
        }
        // the value just past the limit only as an implicit one
        if vals.last().map_or(true, |x| x.0.is_some() && over) {
            c.st.count("not_applicable", 1);
            return Ok(());
        }
    }
    let n = vals.len();
    let body: Vec<String> = vals.iter().enumerate().map(|(i, (e, _))| match e {
        Some(v) => format!("Vv{} = {}", i, int_lit(r, *v)),
        None => format!("Vv{}", i),
    }).collect();
    let mut text = String::new();
    let decl = if union { format!("union Uu {{ {} }}\n", body.join(", ")) } else { format!("enum Uu:{} {{ {} }}\n", word, body.join(",\n")) };
    let tables: String = if union { (0..n).map(|i| format!("table Vv{} {{}}\n", i)).collect() } else { String::new() };
    if r.bool() {
        text.push_str("namespace Nn.Mm;\n");
    }
    if r.bool() {
        text = format!("{}{}{}", text, decl, tables);
    } else {
        text = format!("{}{}{}", text, tables, decl);
    }
    text.push_str("table Tt { f:Uu; }\n");
    let what = format!("{} with {} variants and values up to {}", if union { "a union" } else { "an enum" }, n, top);
    match (compile_with(text.as_bytes(), true, None), over) {
        ((Out::Rejected(_), w), true) if w.is_empty() => {}
        ((Out::Code(_), _), false) => {}
        ((Out::Rejected(_), _), true) => return Err(format!("{}: rejected, but code was written\n{}", what, short(&text))),
        ((Out::Rejected(e), _), false) => return Err(format!("{} was rejected: {}\n{}", what, e, short(&text))),
        ((Out::Code(_), _), true) => return Err(format!("{}, more than its base type holds, was accepted\n{}", what, short(&text))),
        ((Out::Panic(p), _), _) => return Err(format!("{}: panic {}\n{}", what, p, short(&text))),
    }
    c.st.count(if over { "limits.rejected" } else { "limits.accepted" }, 1);
    c.st.count("limits.variants", n as u64);
    c.st.seen(text.as_bytes());
    Ok(())
}

pub fn c22(o: Opts) {
    let cases = o.cases;
    let mut rep = Report::new(o, "distinct schemas: valid ones, which must be accepted, and such with one defect of a known kind, which must be rejected").streams(4);
    rep.run("reject", 4 * cases, reject);
    rep.run("accept", cases, accept);
    rep.run("damaged", 4 * cases, damaged);
    rep.run("limits", cases / 20 + 1, limits);
    rep.finish()
}
