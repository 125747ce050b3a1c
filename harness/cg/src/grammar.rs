//! An independent recogniser of the schema language, to decide of damaged
//! texts whether they are still in the grammar. It leans towards accepting:
//! only what is certainly outside is called so.

#[derive(Clone, Debug, PartialEq)]
enum L {
    Id(String),
    Int,
    Num,
    Str,
    P(char),
    Doc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Inside,
    Outside,
    /// forms the recogniser does not judge
    Unjudged,
}

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// None: a lexical form that is not judged.
fn lex(s: &str) -> Option<Vec<L>> {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if matches!(x, ' ' | '\t' | '\n' | '\r') {
            i += 1;
        } else if x == '/' && at(i + 1) == '/' {
            if at(i + 2) == '/' {
                out.push(L::Doc);
            }
            while i < c.len() && c[i] != '\n' {
                if c[i] == '\r' && at(i + 1) != '\n' {
                    return None;
                }
                i += 1;
            }
            if i >= c.len() && out.last() == Some(&L::Doc) {
                return None;
            }
        } else if x == '"' {
            i += 1;
            loop {
                match at(i) {
                    '\0' if i >= c.len() => {
                        out.push(L::P('"'));
                        break;
                    }
                    '\\' => {
                        if !matches!(at(i + 1), '\\' | '"') {
                            return None;
                        }
                        i += 2;
                    }
                    '"' => {
                        i += 1;
                        out.push(L::Str);
                        break;
                    }
                    _ => i += 1,
                }
            }
        } else if x.is_alphabetic() || x == '_' {
            let a = i;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
            out.push(L::Id(c[a..i].iter().collect()));
        } else if x.is_ascii_digit() || (matches!(x, '+' | '-') && (word(at(i + 1)) || at(i + 1) == '.')) || (x == '.' && at(i + 1).is_ascii_digit()) {
            let a = i;
            i += 1;
            while i < c.len() && (word(c[i]) || c[i] == '.' || (matches!(c[i], '+' | '-') && matches!(c[i - 1], 'e' | 'E' | 'p' | 'P'))) {
                i += 1;
            }
            let t: String = c[a..i].iter().collect();
            let u = t.trim_start_matches(|k| k == '+' || k == '-');
            if t.len() - u.len() > 1 {
                out.push(L::P(x));
                continue;
            }
            if !t.is_ascii() {
                return None;
            }
            if !u.is_empty() && u.bytes().all(|b| b.is_ascii_digit()) {
                out.push(L::Int);
            } else if u.len() > 2 && (u.starts_with("0x") || u.starts_with("0X")) && u[2..].bytes().all(|b| b.is_ascii_hexdigit()) {
                out.push(L::Int);
            } else if float(u) || (t != u && matches!(u, "nan" | "inf" | "infinity")) {
                out.push(L::Num);
            } else if u.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !u.starts_with(|k: char| k.is_ascii_digit()) {
                // a sign before a name that is no number
                out.push(L::P(x));
                out.push(L::Id(u.into()));
            } else {
                return None;
            }
        } else {
            out.push(L::P(x));
            i += 1;
        }
    }
    Some(out)
}

/// A decimal or hexadecimal number with a point or an exponent.
fn float(u: &str) -> bool {
    let hex = u.starts_with("0x") || u.starts_with("0X");
    let b = if hex { &u[2..] } else { u };
    let digit = |c: char| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
    let (m, e) = match b.find(if hex { &['p', 'P'][..] } else { &['e', 'E'][..] }) {
        Some(k) => (&b[..k], Some(&b[k + 1..])),
        None => (b, None),
    };
    if let Some(e) = e {
        let d = e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e);
        if d.is_empty() || !d.bytes().all(|x| x.is_ascii_digit()) {
            return false;
        }
    }
    let p = m.split('.').collect::<Vec<_>>();
    p.len() <= 2 && (p.len() == 2 || e.is_some()) && p.iter().all(|x| x.chars().all(digit)) && p.iter().any(|x| !x.is_empty())
}

struct Rec {
    t: Vec<L>,
    i: usize,
    stray_doc: bool,
}

type R = Result<(), ()>;

impl Rec {
    fn peek(&self) -> Option<&L> {
        self.t.get(self.i)
    }
    /// Documentation where none is expected: not judged.
    fn skip(&mut self) {
        while self.peek() == Some(&L::Doc) {
            self.stray_doc = true;
            self.i += 1;
        }
    }
    fn docs(&mut self) {
        while self.peek() == Some(&L::Doc) {
            self.i += 1;
        }
    }
    fn p(&mut self, c: char) -> R {
        if self.is(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn is(&mut self, c: char) -> bool {
        self.skip();
        self.peek() == Some(&L::P(c))
    }
    fn id(&mut self) -> R {
        self.skip();
        match self.peek() {
            Some(L::Id(_)) => {
                self.i += 1;
                Ok(())
            }
            _ => Err(()),
        }
    }
    fn path(&mut self) -> R {
        self.id()?;
        while self.is('.') {
            self.i += 1;
            self.id()?;
        }
        Ok(())
    }
    fn ty(&mut self) -> R {
        if self.is('[') {
            self.i += 1;
            self.ty()?;
            return self.p(']');
        }
        self.path()
    }
    fn meta(&mut self) -> R {
        if !self.is('(') {
            return Ok(());
        }
        self.i += 1;
        if self.is(')') {
            self.i += 1;
            return Ok(());
        }
        loop {
            self.id()?;
            if self.is(':') {
                self.i += 1;
                self.skip();
                match self.peek() {
                    Some(L::Int) | Some(L::Num) | Some(L::Str) => {}
                    Some(L::Id(x)) if matches!(&x[..], "true" | "false" | "nan" | "inf" | "infinity") => {}
                    _ => return Err(()),
                }
                self.i += 1;
            }
            if self.is(',') {
                self.i += 1;
            } else {
                return self.p(')');
            }
        }
    }
    fn variants(&mut self) -> R {
        self.p('{')?;
        loop {
            self.docs();
            self.id()?;
            if self.is('=') {
                self.i += 1;
                self.skip();
                if self.peek() != Some(&L::Int) {
                    return Err(());
                }
                self.i += 1;
            }
            if self.is(',') {
                self.i += 1;
                if self.is('}') {
                    break;
                }
            } else {
                break;
            }
        }
        self.p('}')
    }
    fn decl(&mut self) -> R {
        let k = match self.peek() {
            Some(L::Id(k)) => k.clone(),
            _ => return Err(()),
        };
        self.i += 1;
        match &k[..] {
            "namespace" => {
                self.path()?;
                self.p(';')
            }
            "root_type" => {
                self.id()?;
                self.p(';')
            }
            "include" | "attribute" | "file_identifier" | "file_extension" => {
                self.skip();
                match self.peek() {
                    Some(L::Str) => {}
                    Some(L::Id(_)) if k == "attribute" => {}
                    _ => return Err(()),
                }
                self.i += 1;
                self.p(';')
            }
            "enum" => {
                self.id()?;
                self.p(':')?;
                self.ty()?;
                self.meta()?;
                self.variants()
            }
            "union" => {
                self.id()?;
                self.meta()?;
                self.variants()
            }
            "table" | "struct" => {
                self.id()?;
                self.meta()?;
                self.p('{')?;
                loop {
                    self.docs();
                    if self.is('}') {
                        return self.p('}');
                    }
                    self.id()?;
                    self.p(':')?;
                    self.ty()?;
                    if self.is('=') {
                        self.i += 1;
                        self.skip();
                        match self.peek() {
                            Some(L::Int) | Some(L::Num) | Some(L::Id(_)) => self.i += 1,
                            _ => return Err(()),
                        }
                    }
                    self.meta()?;
                    self.p(';')?;
                }
            }
            "rpc_service" => {
                self.id()?;
                self.p('{')?;
                loop {
                    self.docs();
                    self.id()?;
                    self.p('(')?;
                    self.path()?;
                    self.p(')')?;
                    self.p(':')?;
                    self.path()?;
                    self.meta()?;
                    self.p(';')?;
                    self.docs();
                    if self.is('}') {
                        return self.p('}');
                    }
                }
            }
            _ => Err(()),
        }
    }
}

pub fn judge(text: &str) -> Verdict {
    let t = match lex(text) {
        Some(t) => t,
        None => return Verdict::Unjudged,
    };
    let mut r = Rec { t, i: 0, stray_doc: false };
    let mut includes = true;
    loop {
        r.docs();
        match r.peek() {
            None => return Verdict::Inside,
            Some(L::Id(k)) if k == "include" => {
                if !includes {
                    return Verdict::Outside;
                }
            }
            _ => includes = false,
        }
        match r.decl() {
            Ok(()) => {}
            Err(()) if r.stray_doc => return Verdict::Unjudged,
            Err(()) => return Verdict::Outside,
        }
    }
}
