//! The naming rules of the schema language's Rust mapping, written from its
//! description: keyword substitution and snake case.
use crate::rng::Rng;
use std::collections::HashSet;

const KEYWORDS: [&str; 51] = [
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
    "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
    "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof",
    "unsized", "virtual", "yield",
];

/// The identifier a schema name has in Rust.
pub fn fix(s: &str) -> String {
    match s {
        "type" => "ty".into(),
        "_" => "__".into(),
        s if KEYWORDS.contains(&s) => format!("{}_", s),
        s => s.into(),
    }
}

/// Words of a mixed-case name: underscores separate, a capital starts a word
/// after a lower-case letter, and the last capital of a run of capitals
/// starts a word if a lower-case letter follows it.
pub fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut cur = String::new();
    #[derive(PartialEq, Clone, Copy)]
    enum M {
        B,
        L,
        U,
    }
    let mut mode = M::B;
    for i in 0..c.len() {
        if c[i] == '_' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            mode = M::B;
            continue;
        }
        let next_mode = if c[i].is_lowercase() {
            M::L
        } else if c[i].is_uppercase() {
            M::U
        } else {
            mode
        };
        if i + 1 == c.len() {
            cur.push(c[i]);
            break;
        }
        let next = c[i + 1];
        if next == '_' || (next_mode == M::L && next.is_uppercase()) {
            cur.push(c[i]);
            out.push(std::mem::take(&mut cur));
            mode = M::B;
        } else if mode == M::U && c[i].is_uppercase() && next.is_lowercase() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.push(c[i]);
            mode = M::B;
        } else {
            cur.push(c[i]);
            mode = next_mode;
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out.into_iter().map(|w| w.to_lowercase()).collect()
}

/// Snake case without keyword substitution; names without a snake form of
/// their own keep their spelling.
pub fn snake_raw(s: &str) -> String {
    let s = fix(s);
    let w = words(&s).join("_");
    if w.starts_with(|c: char| c.is_alphabetic()) {
        w
    } else {
        s
    }
}

pub fn snake(s: &str) -> String {
    fix(&snake_raw(s))
}

/// The name of the type field of union field `s`.
pub fn union_type(s: &str) -> String {
    fix(&format!("{}_type", snake_raw(s)))
}

/// The accessor of that field.
pub fn union_type_acc(s: &str) -> String {
    snake(&union_type(s))
}

/// Two names with different keys stay distinct under every case conversion.
pub fn key(s: &str) -> String {
    fix(s).chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect()
}

pub struct Scope(HashSet<String>);

#[derive(Clone, Copy, PartialEq)]
pub enum NK {
    Type,
    Field,
    Variant,
    Ns,
    Method,
}

const WORDS: [&str; 40] = [
    "foo", "bar", "baz", "hit", "point", "mana", "inventory", "weapon", "pos", "id", "request", "reply", "list", "x", "y", "name", "color",
    "http", "io", "url", "value", "data", "item", "root", "alpha", "be", "to", "size", "entry", "count", "flag", "level", "kind", "ext",
    "key", "info", "path", "opt", "rgb", "utf",
];
const ODD: [&str; 62] = [
    "table", "buf", "fbb", "builder", "start", "args", "o", "loc", "x", "value", "e", "self", "Args", "new", "finish", "follow", "push",
    "from", "into", "try_from", "default", "get_type", "dst", "scalar", "T", "B", "E", "R", "Buf", "Table", "Vector", "Error", "WIPOffset",
    "Follow", "Push", "Option", "Result", "Vec", "Ok", "Err", "Some", "Default", "From", "Into", "AsRef", "Copy", "Clone", "Debug", "Inner",
    "Output", "String", "Box", "root_type", "rpc_service", "include", "namespace", "union", "required", "intx", "stringy", "truex", "infinity2",
];
const SCALARS: [&str; 22] = [
    "bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double", "int8", "uint8", "int16", "uint16", "int32",
    "uint32", "int64", "uint64", "float32", "float64", "string",
];

fn banned(k: NK, s: &str) -> bool {
    match k {
        NK::Type => {
            SCALARS.contains(&s)
                || ["None", "ButteBuf", "str", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "std", "butte", "super", "crate", "self"]
                    .contains(&s)
        }
        NK::Field => ["get_root", "create"].contains(&&snake(s)[..]),
        NK::Variant => ["nan", "inf", "infinity", "true", "false"].contains(&s),
        NK::Ns => SCALARS.contains(&s) || ["std", "butte", "butte_gen", "core", "alloc"].contains(&&snake(s)[..]) || words(s).is_empty(),
        NK::Method => false,
    }
}

fn cap(w: &str) -> String {
    let mut c = w.chars();
    match c.next() {
        None => String::new(),
        Some(f) => f.to_uppercase().chain(c).collect(),
    }
}

fn cased(r: &mut Rng, k: NK) -> String {
    let n = if r.chance(1, 300) { r.range(8, 40) } else { [1, 1, 2, 2, 3][r.below(5)] };
    let ws: Vec<&str> = (0..n).map(|_| *r.pick(&WORDS)).collect();
    let style = match (k, r.below(8)) {
        (NK::Type, 0..=5) | (NK::Method, 0..=4) | (NK::Variant, 0..=3) | (NK::Ns, 0..=1) => 0,
        (NK::Field, 0..=4) | (NK::Ns, 2..=5) => 1,
        _ => r.below(5),
    };
    let mut s: String = match style {
        0 => ws.iter().map(|w| cap(w)).collect(),
        1 => ws.join("_"),
        2 => ws.iter().enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { cap(w) }).collect(),
        3 => ws.join("_").to_uppercase(),
        _ => ws.iter().map(|w| if r.bool() { w.to_uppercase() } else { cap(w) }).collect(),
    };
    if r.chance(1, 8) {
        s.push_str(&format!("{}", r.below(100)));
        if r.chance(1, 3) {
            s.push_str(&cap(r.pick(&WORDS)));
        }
    }
    s
}

/// A random name; `odd` of 16 are unusual ones.
pub fn rand_name(r: &mut Rng, k: NK, odd: usize) -> String {
    loop {
        let s = if r.below(16) < odd {
            match r.below(10) {
                0..=2 => r.pick(&KEYWORDS).to_string(),
                3..=5 => r.pick(&ODD).to_string(),
                6 => format!("_{}", cased(r, k)),
                7 => format!("{}_", cased(r, k)),
                8 => match r.below(8) {
                    0 => "größe".into(),
                    1 => "Ünï".into(),
                    2 => "_".into(),
                    3 => "_9".into(),
                    4 => cap(r.pick(&KEYWORDS)),
                    // words of the schema language with something glued to them
                    5 | 6 => {
                        let w = if r.bool() { *r.pick(&SCALARS) } else { *r.pick(&["true", "false", "inf", "nan", "table", "enum", "union", "namespace", "string"]) };
                        format!("{}{}", w, *r.pick(&["9", "1x", "_x", "x", "64", "_0"]))
                    }
                    _ => r.pick(&SCALARS).to_string(),
                },
                _ => ((b'a' + r.below(26) as u8) as char).to_string(),
            }
        } else {
            cased(r, k)
        };
        if !banned(k, &s) {
            return s;
        }
    }
}

impl Scope {
    pub fn new() -> Scope {
        Scope(HashSet::new())
    }
    /// Claims the name and what is derived from it, if nothing collides.
    pub fn claim(&mut self, s: &str, suffixes: &[&str]) -> bool {
        let k = key(s);
        // `type` is spelled `ty`
        let own = if k == "type" { "ty".to_string() } else { k.clone() };
        let all: Vec<String> = std::iter::once(own).chain(suffixes.iter().map(|x| key(&format!("{}{}", k, x)))).collect();
        if all.iter().any(|k| self.0.contains(k)) {
            return false;
        }
        self.0.extend(all);
        true
    }
    pub fn fresh(&mut self, r: &mut Rng, k: NK, odd: usize, suffixes: &[&str]) -> String {
        for n in 0.. {
            let mut s = rand_name(r, k, if n < 20 { odd } else { 0 });
            if n > 40 {
                s = format!("{}{}", s, n);
            }
            if !banned(k, &s) && self.claim(&s, suffixes) {
                return s;
            }
        }
        unreachable!()
    }
}
