//! Schemas: random generation of valid ones, and their text as tokens.
use crate::names::*;
use crate::rng::Rng;
use crate::ty::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Table(usize),
    Enum(usize),
    Union(usize),
    Service(usize),
    Root(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Method {
    pub name: String,
    pub req: usize,
    pub resp: usize,
    pub streaming: Option<&'static str>,
    pub doc: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Service {
    pub ns: Vec<String>,
    pub name: String,
    pub methods: Vec<Method>,
    pub doc: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub env: Env,
    pub services: Vec<Service>,
    /// order of the declarations; those without namespace come first
    pub items: Vec<Item>,
    /// text of the declared default per table and field
    pub lits: Vec<Vec<Option<String>>>,
    /// docs: per table (itself, fields), per enum and union (itself, variants)
    pub tdoc: Vec<(Vec<String>, Vec<Vec<String>>)>,
    pub edoc: Vec<(Vec<String>, Vec<Vec<String>>)>,
    pub udoc: Vec<(Vec<String>, Vec<Vec<String>>)>,
}

/// What kind of schemas to generate.
#[derive(Clone, Debug)]
pub struct Prof {
    pub tables: (usize, usize),
    pub enums: (usize, usize),
    pub unions: (usize, usize),
    pub services: (usize, usize),
    pub fields: (usize, usize),
    /// weights of field types
    pub w_scalar: usize,
    pub w_str: usize,
    pub w_tab: usize,
    pub w_enum: usize,
    pub w_union: usize,
    pub w_vec: usize,
    /// of 16
    pub required: usize,
    pub default: usize,
    pub docs: usize,
    pub odd: usize,
    pub namespaces: usize,
    /// of 16: enums and unions with many variants
    pub big: usize,
}

impl Prof {
    pub fn general() -> Prof {
        Prof {
            tables: (1, 5),
            enums: (0, 3),
            unions: (0, 2),
            services: (0, 1),
            fields: (0, 8),
            w_scalar: 6,
            w_str: 2,
            w_tab: 3,
            w_enum: 3,
            w_union: 3,
            w_vec: 4,
            required: 3,
            default: 6,
            docs: 2,
            odd: 3,
            namespaces: 3,
            big: 1,
        }
    }
}

pub fn type_words(t: ST) -> &'static [&'static str] {
    match t {
        ST::Bool => &["bool"],
        ST::I8 => &["byte", "int8"],
        ST::U8 => &["ubyte", "uint8"],
        ST::I16 => &["short", "int16"],
        ST::U16 => &["ushort", "uint16"],
        ST::I32 => &["int", "int32"],
        ST::U32 => &["uint", "uint32"],
        ST::I64 => &["long", "int64"],
        ST::U64 => &["ulong", "uint64"],
        ST::F32 => &["float", "float32"],
        ST::F64 => &["double", "float64"],
    }
}

pub fn int_lit(r: &mut Rng, v: i128) -> String {
    let m = v.unsigned_abs();
    let sign = if v < 0 {
        "-"
    } else if r.chance(1, 6) {
        "+"
    } else {
        ""
    };
    match r.below(8) {
        0 => format!("{}0x{:x}", sign, m),
        1 => format!("{}0X{:X}", sign, m),
        2 => format!("{}0x{:04X}", sign, m),
        3 if r.chance(1, 2) => format!("{}00{}", sign, m),
        _ => format!("{}{}", sign, m),
    }
}

/// Exact hexadecimal notation of a finite value.
fn hex_float(r: &mut Rng, v: f64) -> String {
    let b = v.abs().to_bits();
    let (e, m) = ((b >> 52) as i64, b & ((1 << 52) - 1));
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if m == 0 {
        return "0x0p0".into();
    }
    while m & 1 == 0 && r.chance(30, 31) {
        m >>= 1;
        e += 1;
    }
    // split some low digits off as a fraction
    let digits = format!("{:x}", m);
    let k = r.below(digits.len() + 1);
    let (i, f) = digits.split_at(digits.len() - k);
    let mut e = e + 4 * k as i64;
    let i = if i.is_empty() { if r.bool() { "" } else { "0" } } else { i };
    let mut s = if f.is_empty() {
        if r.bool() {
            format!("0x{}.", i)
        } else {
            format!("0x{}", i)
        }
    } else {
        format!("0x{}.{}", i, f)
    };
    if s == "0x" || s == "0x." {
        s = format!("0x{:x}", m);
        e -= 4 * k as i64;
    }
    if e != 0 || !s.contains('.') {
        s.push_str(&format!("{}{}{}", if r.bool() { "p" } else { "P" }, if e >= 0 && r.bool() { "+" } else { "" }, e));
    }
    if r.chance(1, 4) {
        s = s.to_uppercase().replace("0X", if r.bool() { "0X" } else { "0x" });
    }
    s
}

/// The literal text of a scalar in some notation.
pub fn scalar_lit(r: &mut Rng, s: Sc) -> String {
    if s.t == ST::Bool {
        return if s.bits == 1 { "true".into() } else { "false".into() };
    }
    if !s.t.is_float() {
        return int_lit(r, s.as_int());
    }
    let v = if s.t == ST::F32 { f64::from(s.to_f32()) } else { s.to_f64() };
    let plus = if r.chance(1, 5) { "+" } else { "" };
    let sign = if v.is_sign_negative() { "-" } else { plus };
    if v.is_nan() {
        return format!("{}nan", sign);
    }
    if v.is_infinite() {
        return format!("{}{}", sign, if r.bool() { "inf" } else { "infinity" });
    }
    let a = v.abs();
    let ok = |t: &str| -> bool {
        let x: f64 = match t.parse() {
            Ok(x) => x,
            Err(_) => return false,
        };
        if s.t == ST::F32 {
            (x as f32).to_bits() == (a as f32).to_bits() && t.parse::<f32>().map(|y| y.to_bits()) == Ok((a as f32).to_bits())
        } else {
            x.to_bits() == a.to_bits()
        }
    };
    for _ in 0..20 {
        let t = match r.below(9) {
            0 | 1 => {
                let h = hex_float(r, a);
                return format!("{}{}", sign, h);
            }
            2 if a.fract() == 0.0 && a < 9e15 && (v != 0.0 || !v.is_sign_negative()) => return format!("{}{}", sign, a as u64),
            3 if a.fract() == 0.0 && a < 9e15 && (v != 0.0 || !v.is_sign_negative()) => return format!("{}0x{:x}", sign, a as u64),
            4 => {
                if s.t == ST::F32 {
                    format!("{:e}", a as f32)
                } else {
                    format!("{:e}", a)
                }
            }
            5 => {
                if s.t == ST::F32 {
                    format!("{:E}", a as f32).replace("E", if r.bool() { "E+" } else { "E" }).replace("+-", "-")
                } else {
                    format!("{:E}", a)
                }
            }
            6 if a.fract() == 0.0 && a < 1e15 => format!("{}.", a),
            7 if a < 1.0 && a > 1e-5 => format!("{}", a).trim_start_matches('0').to_string(),
            _ => {
                let mut t = if s.t == ST::F32 { format!("{:?}", a as f32) } else { format!("{:?}", a) };
                if r.chance(1, 6) && !t.contains('e') && t.contains('.') {
                    t.push_str("00");
                }
                t
            }
        };
        // it must not look like an integer constant
        if ok(&t) && (t.contains('.') || t.contains('e') || t.contains('E')) {
            return format!("{}{}", sign, t);
        }
    }
    let h = hex_float(r, a);
    format!("{}{}", sign, h)
}

fn rand_doc(r: &mut Rng, p: &Prof) -> Vec<String> {
    if r.below(16) >= p.docs {
        return vec![];
    }
    (0..r.range(1, 3))
        .map(|_| {
            let mut s = String::new();
            for _ in 0..r.below(4) {
                s.push(' ');
                s.push_str(*r.pick(&[
                    "text", "// more", "\"quoted\"", "back\\slash", "table T { x:int; }", "*/", "/*", "漢字", "{", "};", "#[doc]", "a'b", "\t", "namespace q;",
                    "{{}}", "\\n", "///", "(required)", "🦀",
                ]));
            }
            s
        })
        .collect()
}

/// Places of enum values: explicit ones written, implicit ones following.
fn variant_values(r: &mut Rng, n: usize, min: i128, max: i128, first: i128, explicit: usize) -> Vec<(Option<i128>, i128)> {
    let mut used = std::collections::HashSet::new();
    let mut out = vec![];
    let mut next = first;
    for _ in 0..n {
        let must = next > max || next < min || used.contains(&next);
        let v = if must || r.below(16) < explicit {
            let mut v;
            loop {
                v = match r.below(8) {
                    0 => max - r.below(4) as i128,
                    1 => min + r.below(4) as i128,
                    2 => next,
                    3 => next + 1 + r.below(5) as i128,
                    4 => r.below(260) as i128,
                    5 => -(r.below(130) as i128),
                    6 => 1i128 << r.below(64),
                    _ => min + (r.u64() as i128) % (max - min + 1),
                };
                if v >= min && v <= max && !used.contains(&v) {
                    break;
                }
            }
            (Some(v), v)
        } else {
            (None, next)
        };
        used.insert(v.1);
        next = v.1 + 1;
        out.push(v);
    }
    out
}

pub fn field_slots(env: &mut Env) {
    for t in &mut env.tables {
        let mut id = 0;
        for f in &mut t.fields {
            f.slot = 4 + 2 * id;
            id += if let Ty::Union(_) = f.ty { 2 } else { 1 };
        }
    }
}

impl Schema {
    pub fn ns_of(&self, it: Item) -> &Vec<String> {
        match it {
            Item::Table(i) | Item::Root(i) => &self.env.tables[i].ns,
            Item::Enum(i) => &self.env.enums[i].ns,
            Item::Union(i) => &self.env.unions[i].ns,
            Item::Service(i) => &self.services[i].ns,
        }
    }

    /// A random type for a field of table `ti` in namespace `ns`.
    fn rand_ty(&self, r: &mut Rng, p: &Prof, ti: usize, depth: usize) -> Option<Ty> {
        let ns = &self.env.tables[ti].ns;
        // types without namespace cannot be named from inside one
        let vis = |n: &Vec<String>| n == ns || !n.is_empty();
        let total = p.w_scalar + p.w_str + p.w_tab + p.w_enum + p.w_union + p.w_vec;
        let mut k = r.below(total);
        if k < p.w_scalar {
            return Some(Ty::S(*r.pick(&ALL_ST)));
        }
        k -= p.w_scalar;
        if k < p.w_str {
            return Some(Ty::Str);
        }
        k -= p.w_str;
        if k < p.w_tab {
            let c: Vec<usize> = (0..self.env.tables.len()).filter(|i| vis(&self.env.tables[*i].ns)).collect();
            return Some(Ty::Tab(*r.pick(&c)));
        }
        k -= p.w_tab;
        if k < p.w_enum {
            let c: Vec<usize> = (0..self.env.enums.len()).filter(|i| vis(&self.env.enums[*i].ns)).collect();
            return if c.is_empty() { None } else { Some(Ty::Enum(*r.pick(&c))) };
        }
        k -= p.w_enum;
        if k < p.w_union {
            let c: Vec<usize> = (0..self.env.unions.len()).filter(|i| vis(&self.env.unions[*i].ns)).collect();
            return if c.is_empty() || depth > 0 { None } else { Some(Ty::Union(*r.pick(&c))) };
        }
        if depth >= 3 {
            return None;
        }
        self.rand_ty(r, p, ti, depth + 1).map(Ty::vec)
    }

    pub fn rand_field(&self, r: &mut Rng, p: &Prof, ti: usize, sc: &mut Scope) -> (Field, Option<String>, Vec<String>) {
        let ty = loop {
            if let Some(t) = self.rand_ty(r, p, ti, 0) {
                break t;
            }
        };
        let name = sc.fresh(r, NK::Field, p.odd, if let Ty::Union(_) = ty { &["type"] } else { &[] });
        let mut required = r.below(16) < p.required;
        // required references only to earlier tables, so that values are finite
        match &ty {
            Ty::Tab(t) if *t >= ti => required = false,
            Ty::Union(u) if self.env.unions[*u].variants.iter().any(|v| v.0 >= ti) => required = false,
            _ => {}
        }
        let (default, lit) = match &ty {
            Ty::S(st) => {
                if r.below(16) < p.default {
                    let s = rand_default(r, *st);
                    (Some(s), Some(scalar_lit(r, s)))
                } else {
                    (Some(Sc::zero(*st)), None)
                }
            }
            Ty::Enum(e) => {
                let e = &self.env.enums[*e];
                if r.below(16) < p.default {
                    let v = r.pick(&e.variants);
                    (Some(Sc::int(e.base, v.2)), Some(v.0.clone()))
                } else {
                    (None, None)
                }
            }
            _ => (None, None),
        };
        (Field { name, slot: 0, ty, default, required }, lit, rand_doc(r, p))
    }

    pub fn generate(r: &mut Rng, p: &Prof) -> Schema {
        let mut s = Schema::default();
        // namespaces
        let nn = r.range(1, p.namespaces.max(1));
        let mut nss: Vec<Vec<String>> = vec![];
        let mut scopes: std::collections::HashMap<Vec<String>, Scope> = std::collections::HashMap::new();
        // names of the modules and types inside each module, by snake path
        let path = |ns: &[String]| -> Vec<String> { ns.iter().map(|x| snake(x)).collect() };
        let fresh_scope = || {
            let mut s = Scope::new();
            s.claim("butte_gen", &[]);
            s
        };
        for i in 0..nn {
            if i == 0 && r.chance(1, 2) {
                nss.push(vec![]);
                continue;
            }
            let mut ns: Vec<String> = if !nss.is_empty() && r.chance(1, 2) {
                let b = r.pick(&nss).clone();
                let k = r.below(b.len() + 1);
                b[..k].to_vec()
            } else {
                vec![]
            };
            let deep = r.chance(1, 30);
            for _ in 0..if deep { r.range(4, 10) } else { r.range(1, 2) } {
                if ns.len() >= if deep { 12 } else { 4 } {
                    break;
                }
                let sc = scopes.entry(path(&ns)).or_insert_with(fresh_scope);
                // the same leaf under different parents, now and then
                let reuse = nss.iter().flatten().cloned().collect::<Vec<_>>();
                let name = if !reuse.is_empty() && r.chance(1, 3) {
                    let n = r.pick(&reuse).clone();
                    if !sc.claim(&n, &[]) {
                        sc.fresh(r, NK::Ns, p.odd, &[])
                    } else {
                        n
                    }
                } else {
                    sc.fresh(r, NK::Ns, p.odd, &[])
                };
                ns.push(name);
            }
            if nss.contains(&ns) {
                continue;
            }
            nss.push(ns);
        }
        // types
        // now and then many tables, a very wide one, or a very long enum
        let many = r.chance(1, 400);
        let nt = if many { r.range(30, 70) } else { r.range(p.tables.0, p.tables.1) };
        let ne = r.range(p.enums.0, p.enums.1);
        let nu = r.range(p.unions.0, p.unions.1);
        let nsv = r.range(p.services.0, p.services.1);
        let mut names: Vec<String> = vec![];
        let mut fresh = |r: &mut Rng, ns: &Vec<String>, suf: &[&str]| -> String {
            let sc = scopes.entry(path(ns)).or_insert_with(fresh_scope);
            // the same name in another namespace
            if !names.is_empty() && r.chance(1, 4) {
                let n = r.pick(&names).clone();
                if sc.claim(&n, suf) {
                    return n;
                }
            }
            let n = sc.fresh(r, NK::Type, p.odd, suf);
            names.push(n.clone());
            n
        };
        let suf = ["args", "builder"];
        for _ in 0..nt {
            let ns = r.pick(&nss).clone();
            let name = fresh(r, &ns, &suf);
            s.env.tables.push(TableT { ns, name, fields: vec![] });
        }
        for _ in 0..ne {
            let ns = r.pick(&nss).clone();
            let name = fresh(r, &ns, &suf);
            let base = *r.pick(&INT_ST);
            let n = match r.below(16) < p.big {
                true if r.chance(1, 8) && base.max() > 255 => r.range(256, 400),
                true if r.chance(1, 8) => r.range(120, 256),
                true => r.range(20, 120),
                false => r.range(1, 6),
            };
            let ex = *r.pick(&[0, 3, 8, 16]);
            let vals = variant_values(r, n, base.min(), base.max(), 0, ex);
            let mut sc = Scope::new();
            let variants = vals.into_iter().map(|(e, v)| (sc.fresh(r, NK::Variant, p.odd, &[]), e, v)).collect();
            s.env.enums.push(EnumT { ns, name, base, variants });
        }
        for _ in 0..nu {
            // variants are tables of the union's own namespace
            let cand: Vec<Vec<String>> = nss.iter().filter(|n| s.env.tables.iter().any(|t| t.ns == **n)).cloned().collect();
            let ns = r.pick(&cand).clone();
            let name = fresh(r, &ns, &suf);
            let mut ts: Vec<usize> = (0..nt).filter(|i| s.env.tables[*i].ns == ns).collect();
            r.shuffle(&mut ts);
            let k = r.range(1, ts.len().min(if many { 70 } else { 5 }));
            ts.truncate(k);
            let ex = *r.pick(&[0, 0, 4, 16]);
            let vals = variant_values(r, ts.len(), 1, 255, 1, ex);
            s.env.unions.push(UnionT { ns, name, variants: ts.into_iter().zip(vals).map(|(t, (e, v))| (t, e, v as u8)).collect() });
        }
        for _ in 0..nsv {
            let ns = r.pick(&nss).clone();
            let vis: Vec<usize> = (0..nt).filter(|i| s.env.tables[*i].ns == ns || !s.env.tables[*i].ns.is_empty()).collect();
            if vis.is_empty() {
                continue;
            }
            let name = fresh(r, &ns, &suf);
            let mut sc = Scope::new();
            let methods = (0..r.range(1, 4))
                .map(|_| Method {
                    name: sc.fresh(r, NK::Method, p.odd, &[]),
                    req: *r.pick(&vis),
                    resp: *r.pick(&vis),
                    streaming: *r.pick(&[None, None, Some("client"), Some("server"), Some("bidi")]),
                    doc: rand_doc(r, p),
                })
                .collect();
            s.services.push(Service { ns, name, methods, doc: rand_doc(r, p) });
        }
        for ti in 0..nt {
            let nf = if r.chance(1, 25) {
                r.range(12, 40)
            } else if r.chance(1, 500) && !many {
                *r.pick(&[250, 290, 320, 511, 513, 530, 700, 1030])
            } else {
                r.range(p.fields.0, p.fields.1)
            };
            let mut sc = Scope::new();
            let mut fs = vec![];
            let mut ls = vec![];
            let mut ds = vec![];
            for _ in 0..nf {
                let (f, l, d) = s.rand_field(r, p, ti, &mut sc);
                fs.push(f);
                ls.push(l);
                ds.push(d);
            }
            s.env.tables[ti].fields = fs;
            s.lits.push(ls);
            s.tdoc.push((rand_doc(r, p), ds));
        }
        field_slots(&mut s.env);
        for e in &s.env.enums {
            s.edoc.push((rand_doc(r, p), e.variants.iter().map(|_| rand_doc(r, p)).collect()));
        }
        for u in &s.env.unions {
            s.udoc.push((rand_doc(r, p), u.variants.iter().map(|_| rand_doc(r, p)).collect()));
        }
        s.items.extend((0..nt).map(Item::Table));
        s.items.extend((0..s.env.enums.len()).map(Item::Enum));
        s.items.extend((0..s.env.unions.len()).map(Item::Union));
        s.items.extend((0..s.services.len()).map(Item::Service));
        if r.bool() {
            s.items.push(Item::Root(r.below(nt)));
        }
        s.permute(r);
        s
    }

    /// Another order of the same declarations.
    pub fn permute(&mut self, r: &mut Rng) {
        let mut items = std::mem::take(&mut self.items);
        r.shuffle(&mut items);
        let (a, b): (Vec<Item>, Vec<Item>) = items.into_iter().partition(|i| self.ns_of(*i).is_empty());
        self.items = a.into_iter().chain(b).collect();
    }
}

/// Defaults: the usual extremes, and plain numbers.
pub fn rand_default(r: &mut Rng, t: ST) -> Sc {
    let s = any_default(r, t);
    // the text `nan` says nothing of the other bits
    match t {
        ST::F32 if s.to_f32().is_nan() => Sc::new(t, (s.bits & 0x8000_0000) | 0x7fc0_0000),
        ST::F64 if s.to_f64().is_nan() => Sc::new(t, (s.bits & 1 << 63) | 0x7ff8 << 48),
        _ => s,
    }
}

fn any_default(r: &mut Rng, t: ST) -> Sc {
    match r.below(4) {
        0 if !t.is_float() => {
            let v = r.below(200) as i128 - if t.signed() { 100 } else { 0 };
            if t == ST::Bool {
                Sc::new(t, v as u64)
            } else {
                Sc::int(t, v.min(t.max()).max(t.min()))
            }
        }
        0 if r.chance(1, 12) => {
            if t == ST::F32 {
                Sc::new(t, *r.pick(&[0xffc0_0000, 0x7fc0_0000, 0xff80_0000, 0x8000_0000, 0x8000_0001]))
            } else {
                Sc::new(t, *r.pick(&[0xfff8 << 48, 0x7ff8 << 48, 0xfff0 << 48, 1 << 63, 1 << 63 | 1]))
            }
        }
        0 => {
            let v = (r.below(4000) as f64 - 2000.0) / *r.pick(&[1.0, 2.0, 8.0, 10.0, 1000.0]);
            if t == ST::F32 {
                Sc::f32(v as f32)
            } else {
                Sc::f64(v)
            }
        }
        _ => rand_scalar(r, t),
    }
}

// ------------------------------------------------------------------- text

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// identifier, keyword or number
    W(String),
    P(char),
    S(String),
    Doc(String),
}

pub struct Text<'a> {
    pub s: &'a Schema,
    pub out: Vec<Tok>,
}

impl<'a> Text<'a> {
    fn w(&mut self, s: &str) {
        self.out.push(Tok::W(s.to_string()));
    }
    fn p(&mut self, c: char) {
        self.out.push(Tok::P(c));
    }
    fn path(&mut self, ns: &[String], name: &str) {
        for x in ns {
            self.w(x);
            self.p('.');
        }
        self.w(name);
    }
    fn refer(&mut self, r: &mut Rng, from: &[String], ns: &[String], name: &str) {
        if from == ns && (ns.is_empty() || r.chance(2, 3)) {
            self.w(name);
        } else {
            self.path(ns, name);
        }
    }
    fn ty(&mut self, r: &mut Rng, from: &[String], t: &Ty) {
        let env = &self.s.env;
        match t {
            Ty::S(t) => {
                let x = *r.pick(type_words(*t));
                self.w(x)
            }
            Ty::Str => self.w("string"),
            Ty::Tab(i) => {
                let t = &env.tables[*i];
                self.refer(r, from, &t.ns, &t.name)
            }
            Ty::Enum(i) => {
                let t = &env.enums[*i];
                self.refer(r, from, &t.ns, &t.name)
            }
            Ty::Union(i) => {
                let t = &env.unions[*i];
                self.refer(r, from, &t.ns, &t.name)
            }
            Ty::Vec(e) => {
                self.p('[');
                self.ty(r, from, e);
                self.p(']');
            }
            _ => panic!("harness: type"),
        }
    }
    fn doc(&mut self, d: &[String]) {
        for l in d {
            self.out.push(Tok::Doc(l.clone()));
        }
    }
    /// Metadata the compiler has no use for.
    fn junk_meta(&mut self, r: &mut Rng) {
        let n = r.range(1, 2);
        for i in 0..n {
            if i > 0 {
                self.p(',');
            }
            match r.below(5) {
                0 => self.w("deprecated"),
                1 => {
                    self.w("priority");
                    self.p(':');
                    let l = int_lit(r, 7);
                    self.w(&l);
                }
                2 => {
                    self.w("note");
                    self.p(':');
                    self.out.push(Tok::S("\"a \\\"b\\\\ // c\"".into()));
                }
                3 => {
                    self.w("ratio");
                    self.p(':');
                    self.w("1.5e3");
                }
                _ => {
                    self.w("flag");
                    self.p(':');
                    self.w("true");
                }
            }
        }
    }
    fn item(&mut self, r: &mut Rng, it: Item) {
        let s = self.s;
        let ns = s.ns_of(it).clone();
        match it {
            Item::Table(i) => {
                let t = &s.env.tables[i];
                self.doc(&s.tdoc[i].0);
                self.w("table");
                self.w(&t.name);
                if r.chance(1, 12) {
                    self.p('(');
                    self.junk_meta(r);
                    self.p(')');
                }
                self.p('{');
                for (k, f) in t.fields.iter().enumerate() {
                    self.doc(&s.tdoc[i].1[k]);
                    self.w(&f.name);
                    self.p(':');
                    self.ty(r, &ns, &f.ty);
                    if let Some(l) = &s.lits[i][k] {
                        self.p('=');
                        self.w(l);
                    }
                    let junk = r.chance(1, 12);
                    if f.required || junk {
                        self.p('(');
                        if junk && r.bool() {
                            self.junk_meta(r);
                            if f.required {
                                self.p(',');
                                self.w("required");
                            }
                        } else {
                            if f.required {
                                self.w("required");
                            }
                            if junk {
                                if f.required {
                                    self.p(',');
                                }
                                self.junk_meta(r);
                            }
                        }
                        self.p(')');
                    }
                    self.p(';');
                }
                self.p('}');
            }
            Item::Enum(i) => {
                let e = &s.env.enums[i];
                self.doc(&s.edoc[i].0);
                self.w("enum");
                self.w(&e.name);
                self.p(':');
                let x = *r.pick(type_words(e.base));
                self.w(x);
                if r.chance(1, 12) {
                    self.p('(');
                    self.junk_meta(r);
                    self.p(')');
                }
                let vs: Vec<_> = e.variants.iter().map(|v| (v.0.clone(), v.1)).collect();
                self.body(r, &vs, &s.edoc[i].1);
            }
            Item::Union(i) => {
                let u = &s.env.unions[i];
                self.doc(&s.udoc[i].0);
                self.w("union");
                self.w(&u.name);
                if r.chance(1, 12) {
                    self.p('(');
                    self.junk_meta(r);
                    self.p(')');
                }
                let vs: Vec<_> = u.variants.iter().map(|v| (s.env.tables[v.0].name.clone(), v.1)).collect();
                self.body(r, &vs, &s.udoc[i].1);
            }
            Item::Service(i) => {
                let sv = &s.services[i];
                self.doc(&sv.doc);
                self.w("rpc_service");
                self.w(&sv.name);
                self.p('{');
                for m in &sv.methods {
                    self.doc(&m.doc);
                    self.w(&m.name);
                    self.p('(');
                    let t = &s.env.tables[m.req];
                    self.refer(r, &ns, &t.ns, &t.name);
                    self.p(')');
                    self.p(':');
                    let t = &s.env.tables[m.resp];
                    self.refer(r, &ns, &t.ns, &t.name);
                    if let Some(m) = m.streaming {
                        self.p('(');
                        self.w("streaming");
                        self.p(':');
                        self.out.push(Tok::S(format!("\"{}\"", m)));
                        self.p(')');
                    }
                    self.p(';');
                }
                self.p('}');
            }
            Item::Root(i) => {
                self.w("root_type");
                self.w(&s.env.tables[i].name);
                self.p(';');
            }
        }
    }
    fn body(&mut self, r: &mut Rng, vs: &[(String, Option<i128>)], docs: &[Vec<String>]) {
        self.p('{');
        for (k, (n, v)) in vs.iter().enumerate() {
            self.doc(&docs[k]);
            self.w(n);
            if let Some(v) = v {
                self.p('=');
                let l = int_lit(r, *v);
                self.w(&l);
            }
            if k + 1 < vs.len() || r.chance(1, 3) {
                self.p(',');
            }
        }
        self.p('}');
    }
}

/// The tokens of a schema; `r` decides spellings that mean the same.
pub fn tokens(s: &Schema, r: &mut Rng) -> Vec<Tok> {
    let mut t = Text { s, out: vec![] };
    if r.chance(1, 8) {
        t.w("include");
        t.out.push(Tok::S("\"some/other.fbs\"".into()));
        t.p(';');
    }
    let mut cur: Vec<String> = vec![];
    for it in &s.items {
        let ns = s.ns_of(*it).clone();
        if ns != cur || (!ns.is_empty() && r.chance(1, 6)) {
            t.w("namespace");
            let (n, p) = ns.split_last().expect("harness: namespace");
            t.path(p, n);
            t.p(';');
            cur = ns;
        }
        t.item(r, *it);
    }
    t.out
}

pub fn wordy(t: &Tok) -> bool {
    matches!(t, Tok::W(_) | Tok::S(_))
}

/// Plain layout: one space or line break between tokens.
pub fn plain(toks: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::W(x) | Tok::S(x) => {
                if i > 0 && wordy(&toks[i - 1]) {
                    s.push(' ');
                }
                s.push_str(x)
            }
            Tok::P(c) => {
                s.push(*c);
                if matches!(c, ';' | '{' | '}' | ',') {
                    s.push('\n');
                }
            }
            Tok::Doc(l) => {
                s.push_str("///");
                s.push_str(l);
                s.push('\n');
            }
        }
    }
    s
}

/// Random white space and line comments between the tokens.
pub fn layout(r: &mut Rng, toks: &[Tok]) -> String {
    let mut s = String::new();
    let crlf = r.below(3);
    let style = r.below(4);
    let eol = |r: &mut Rng| match crlf {
        0 => "\n",
        1 => "\r\n",
        _ => *r.pick(&["\n", "\r\n"]),
    };
    let gap = |r: &mut Rng, need: bool, s: &mut String| {
        let n = match style {
            0 => 0,
            1 => r.below(2),
            2 => r.below(3),
            _ => r.below(5),
        };
        let n = if need { n.max(1) } else { n };
        for k in 0..n {
            match r.below(if style >= 2 { 8 } else { 5 }) {
                0 | 1 => s.push(' '),
                2 => s.push('\t'),
                3 => s.push_str("   "),
                4 => s.push_str(eol(r)),
                _ => {
                    if need && k == 0 && r.bool() {
                        s.push(' ');
                    }
                    s.push_str("//");
                    s.push_str(*r.pick(&[
                        "", " x", " table T { a:int; }", "\"", " /* ", "*/", " }", " ;", "{", " namespace a.b;", " é漢🦀", "-/", " / / /", "!", "?\t", " // ///", "\\",
                        " 'c'", "#", " /// not a doc", "//"[..0].into(),
                    ]));
                    s.push_str(eol(r));
                }
            }
        }
    };
    for (i, t) in toks.iter().enumerate() {
        let need = i > 0 && wordy(t) && wordy(&toks[i - 1]);
        gap(r, need, &mut s);
        match t {
            Tok::W(x) | Tok::S(x) => s.push_str(x),
            Tok::P(c) => s.push(*c),
            Tok::Doc(l) => {
                s.push_str("///");
                s.push_str(l);
                s.push_str(eol(r));
            }
        }
    }
    gap(r, false, &mut s);
    if r.chance(1, 10) {
        s.push_str("// the end");
    }
    s
}

// ------------------------------------------------- schemas of the checks

/// The kind of schemas each property is observed on.
pub fn prof(prop: &str) -> Prof {
    let g = Prof::general();
    match prop {
        "C12" => Prof { odd: 7, tables: (1, 6), enums: (0, 4), services: (0, 2), namespaces: 4, fields: (0, 10), default: 8, ..g },
        "C15" => Prof {
            w_scalar: 12,
            w_str: 0,
            w_tab: 1,
            w_enum: 4,
            w_union: 0,
            w_vec: 0,
            default: 13,
            fields: (5, 16),
            tables: (1, 4),
            unions: (0, 0),
            services: (0, 0),
            required: 2,
            odd: 2,
            ..g
        },
        "C16" => Prof { enums: (2, 4), unions: (1, 3), w_enum: 6, w_union: 7, w_scalar: 2, big: 3, services: (0, 0), required: 2, ..g },
        "C17" => Prof { required: 9, services: (0, 0), ..g },
        "C18" => Prof { namespaces: 5, tables: (2, 7), enums: (1, 4), unions: (0, 3), fields: (0, 5), w_scalar: 1, w_enum: 4, w_tab: 5, services: (0, 0), ..g },
        "C25" => Prof { enums: (1, 3), unions: (0, 2), services: (0, 0), ..g },
        _ => g,
    }
}

/// Schema number `idx` of a property: one version, or two for C25.
pub fn for_prop(prop: &str, seed: u64, idx: u64) -> Vec<Schema> {
    let p = prof(prop);
    let mut r = Rng::case(seed, &format!("schema.{}", prop), idx);
    let s = Schema::generate(&mut r, &p);
    if prop == "C25" {
        let n = s.evolve(&mut r, &p);
        return vec![s, n];
    }
    vec![s]
}

impl Schema {
    /// A later version: appended fields and variants, further types.
    pub fn evolve(&self, r: &mut Rng, p: &Prof) -> Schema {
        let mut s = self.clone();
        let path = |ns: &[String]| -> Vec<String> { ns.iter().map(|x| snake(x)).collect() };
        let suf = ["args", "builder"];
        let mut scopes: std::collections::HashMap<Vec<String>, Scope> = std::collections::HashMap::new();
        let mut nss: Vec<Vec<String>> = vec![];
        {
            let mut put = |ns: &Vec<String>, name: &str| {
                scopes.entry(path(ns)).or_insert_with(Scope::new).claim(name, &suf);
                for k in 0..ns.len() {
                    scopes.entry(path(&ns[..k])).or_insert_with(Scope::new).claim(&ns[k], &[]);
                }
                if !nss.contains(ns) {
                    nss.push(ns.clone());
                }
            };
            for t in &self.env.tables {
                put(&t.ns, &t.name);
            }
            for t in &self.env.enums {
                put(&t.ns, &t.name);
            }
            for t in &self.env.unions {
                put(&t.ns, &t.name);
            }
            for t in &self.services {
                put(&t.ns, &t.name);
            }
        }
        for sc in scopes.values_mut() {
            sc.claim("butte_gen", &[]);
        }
        let old_nt = s.env.tables.len();
        for _ in 0..r.below(3) {
            let ns = r.pick(&nss).clone();
            let name = scopes.get_mut(&path(&ns)).expect("harness: scope").fresh(r, NK::Type, p.odd, &suf);
            s.env.tables.push(TableT { ns, name, fields: vec![] });
            s.lits.push(vec![]);
            s.tdoc.push((rand_doc(r, p), vec![]));
            s.items.push(Item::Table(s.env.tables.len() - 1));
        }
        for _ in 0..r.below(2) {
            let ns = r.pick(&nss).clone();
            let name = scopes.get_mut(&path(&ns)).expect("harness: scope").fresh(r, NK::Type, p.odd, &suf);
            let mut sc = Scope::new();
            let vals = variant_values(r, 3, 0, 255, 0, 4);
            let variants = vals.into_iter().map(|(e, v)| (sc.fresh(r, NK::Variant, p.odd, &[]), e, v)).collect();
            s.env.enums.push(EnumT { ns, name, base: ST::U8, variants });
            s.edoc.push((vec![], vec![vec![]; 3]));
            s.items.push(Item::Enum(s.env.enums.len() - 1));
        }
        for i in 0..self.env.enums.len() {
            if r.chance(1, 4) {
                continue;
            }
            let base = s.env.enums[i].base;
            let mut sc = Scope::new();
            for v in &s.env.enums[i].variants {
                sc.claim(&v.0, &[]);
            }
            for _ in 0..r.range(1, 4) {
                let vs = &s.env.enums[i].variants;
                let next = vs.last().map_or(0, |v| v.2 + 1);
                let used: Vec<i128> = vs.iter().map(|v| v.2).collect();
                let v = next_value(r, &used, next, base.min(), base.max());
                let name = sc.fresh(r, NK::Variant, p.odd, &[]);
                s.env.enums[i].variants.push((name, v.0, v.1));
                s.edoc[i].1.push(rand_doc(r, p));
            }
        }
        for i in 0..self.env.unions.len() {
            let ns = s.env.unions[i].ns.clone();
            let mut c: Vec<usize> =
                (0..s.env.tables.len()).filter(|t| s.env.tables[*t].ns == ns && !s.env.unions[i].variants.iter().any(|v| v.0 == *t)).collect();
            r.shuffle(&mut c);
            c.truncate(r.below(3));
            for t in c {
                let vs = &s.env.unions[i].variants;
                let next = vs.last().map_or(1, |v| i128::from(v.2) + 1);
                let used: Vec<i128> = vs.iter().map(|v| i128::from(v.2)).collect();
                let v = next_value(r, &used, next, 1, 255);
                s.env.unions[i].variants.push((t, v.0, v.1 as u8));
                s.udoc[i].1.push(rand_doc(r, p));
            }
        }
        for ti in 0..s.env.tables.len() {
            let mut sc = Scope::new();
            for f in &s.env.tables[ti].fields {
                sc.claim(&f.name, if let Ty::Union(_) = f.ty { &["type"] } else { &[] });
            }
            for _ in 0..if ti < old_nt { r.below(4) } else { r.range(1, 4) } {
                let (mut f, l, d) = s.rand_field(r, p, ti, &mut sc);
                if ti < old_nt {
                    f.required = false;
                }
                s.env.tables[ti].fields.push(f);
                s.lits[ti].push(l);
                s.tdoc[ti].1.push(d);
            }
        }
        // a required field of a table may now lead back to it: unions have grown
        for ti in 0..s.env.tables.len() {
            for k in 0..s.env.tables[ti].fields.len() {
                let f = &s.env.tables[ti].fields[k];
                if let (Ty::Union(u), true) = (&f.ty, f.required) {
                    let u = *u;
                    let old = self.env.unions.get(u).map_or(0, |u| u.variants.len());
                    let vs = &mut s.env.unions[u].variants;
                    let keep = vs.iter().enumerate().all(|(k, v)| k < old || v.0 < ti);
                    if !keep {
                        vs.truncate(old);
                        s.udoc[u].1.truncate(old);
                    }
                }
            }
        }
        field_slots(&mut s.env);
        s.permute(r);
        s
    }
}

fn next_value(r: &mut Rng, used: &[i128], next: i128, min: i128, max: i128) -> (Option<i128>, i128) {
    if next <= max && !used.contains(&next) && r.chance(2, 3) {
        return (None, next);
    }
    loop {
        let v = match r.below(4) {
            0 => next + r.below(9) as i128,
            1 => r.below(256) as i128,
            2 => max - r.below(10) as i128,
            _ => min + (r.u64() as i128) % (max - min + 1),
        };
        if v >= min && v <= max && !used.contains(&v) {
            return (Some(v), v);
        }
    }
}
