//! Checks of entry points and of faults around the compiler: C20, C21.
use crate::local::{must, rand_schema, short, V};
use crate::rs;
use crate::sut::{compile_with, Out, Sink};
use model::run::{guard, Case, Opts, Report};
use model::schema::{layout, plain, tokens, Tok};
use model::Rng;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

/// Files of one case; removed afterwards.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new(work: &Path, c: &Case, tag: &str) -> Dir {
        let d = work.join(format!("{}{}", tag, c.n));
        std::fs::create_dir_all(&d).expect("harness: directory");
        Dir(d)
    }
    pub fn file(&self, n: &str, b: &[u8]) -> PathBuf {
        let p = self.0.join(n);
        std::fs::write(&p, b).expect("harness: file");
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    pub ok: bool,
    pub status: String,
    pub out: Vec<u8>,
    pub err: String,
}

/// Runs a program with the given standard input, at most a minute.
pub fn run(cmd: &mut Command, input: Option<&[u8]>) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let mut ch = cmd
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("harness: spawn");
    let feeder = input.map(|i| {
        let i = i.to_vec();
        let mut p = ch.stdin.take().expect("harness: stdin");
        std::thread::spawn(move || {
            let _ = p.write_all(&i);
        })
    });
    let o = ch.wait_with_output().expect("harness: wait");
    if let Some(f) = feeder {
        let _ = f.join();
    }
    let crashed = o.status.signal().is_some() || o.status.code() == Some(101);
    Ran {
        ok: o.status.success(),
        status: if crashed { format!("crashed ({})", o.status) } else { format!("{}", o.status) },
        out: o.stdout,
        err: String::from_utf8_lossy(&o.stderr).chars().take(400).collect(),
    }
}

fn sibling(n: &str) -> PathBuf {
    let me = std::env::current_exe().expect("harness: exe");
    me.with_file_name(n)
}

/// `cg fbs PATH`: the entry point of build scripts.
pub fn fbs(path: &str) -> ! {
    match butte_build::compile_fbs(path) {
        Ok(()) => std::process::exit(0),
        Err(e) => {
            eprintln!("{:#}", e);
            std::process::exit(1)
        }
    }
}

fn rustfmt(code: &str) -> String {
    let r = run(Command::new("rustfmt").args(["--edition", "2018"]), Some(code.as_bytes()));
    if !r.ok {
        panic!("harness: rustfmt {} {}", r.status, r.err);
    }
    String::from_utf8(r.out).expect("harness: rustfmt output")
}

/// Text of a schema, now and then with a defect.
fn any_text(r: &mut Rng) -> Vec<u8> {
    let s = rand_schema(r);
    let mut t = tokens(&s, r);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            if t.is_empty() {
                break;
            }
            let i = r.below(t.len());
            match r.below(3) {
                0 => {
                    t.remove(i);
                }
                1 => {
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                _ => t[i] = Tok::W("Zq9".into()),
            }
        }
    }
    let s = if r.bool() { plain(&t) } else { layout(r, &t) };
    let mut b = s.into_bytes();
    if r.chance(1, 30) && !b.is_empty() {
        let i = r.below(b.len());
        b[i] = 0xff;
    }
    b
}

fn same(what: &str, want: &Out, got: &Ran, delivered: &[u8], text: &[u8]) -> V {
    let t = || short(&String::from_utf8_lossy(text));
    if got.status.starts_with("crashed") {
        return Err(format!("{}: {} {}\n{}", what, got.status, got.err, t()));
    }
    match want {
        Out::Code(c) => {
            if !got.ok {
                return Err(format!("{}: {} although the library accepts the schema: {}\n{}", what, got.status, got.err, t()));
            }
            if c.as_bytes() != delivered {
                let at = c.bytes().zip(delivered).position(|(a, b)| a != *b).unwrap_or_else(|| c.len().min(delivered.len()));
                return Err(format!("{}: delivers other code than the library ({} and {} bytes, different at {})\n{}", what, delivered.len(), c.len(), at, t()));
            }
            Ok(())
        }
        _ => {
            if got.ok {
                return Err(format!("{}: reports success although the library rejects the schema\n{}", what, t()));
            }
            if !delivered.is_empty() {
                return Err(format!("{}: fails but delivers {} bytes\n{}", what, delivered.len(), t()));
            }
            Ok(())
        }
    }
}

fn entry_points(c: &mut Case, work: &Path) -> V {
    let text = any_text(&mut c.r);
    let d = Dir::new(work, c, "e");
    let input = d.file("schema.fbs", &text);
    let ugly = compile_with(&text, true, None).0;
    let fmt = compile_with(&text, false, None).0;
    for o in [&ugly, &fmt] {
        if let Out::Panic(p) = o {
            return Err(format!("panic: {}\n{}", p, short(&String::from_utf8_lossy(&text))));
        }
    }
    c.st.count(if ugly.code().is_some() { "accepted" } else { "rejected" }, 1);
    c.st.seen(&text);
    match (&ugly, &fmt) {
        (Out::Code(u), Out::Code(f)) => {
            // rustfmt trims documentation
            let part = |x: &str| -> Result<String, String> {
                let (t, d) = rs::strip_docs(&rustfmt(x))?;
                Ok(d.iter().fold(t, |t, d| format!("{} {} {} {}", t, d.within, d.name, d.text.trim())))
            };
            let (a, b) = (part(u)?, part(f)?);
            if a != b {
                let at = a.bytes().zip(b.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
                let cut = |s: &str| s.chars().skip(at).take(160).collect::<String>();
                return Err(format!("formatted and unformatted code differ: ...{}... and ...{}...\n{}", cut(&a), cut(&b), short(&String::from_utf8_lossy(&text))));
            }
        }
        (Out::Rejected(_), Out::Code(_)) => return Err("rejected without, accepted with formatting".into()),
        _ => {}
    }
    let butte = sibling("butte");
    let cmd = || Command::new(&butte);
    let flag = if c.r.bool() { "-u" } else { "--ugly" };
    let mut modes = 0;
    for is_ugly in [true, false] {
        let want = if is_ugly { &ugly } else { &fmt };
        let with = |cmd: &mut Command, first: bool, r: &mut Rng| {
            if is_ugly && (first == r.bool()) {
                cmd.arg(flag);
                return true;
            }
            !is_ugly
        };
        // standard input to standard output
        if c.r.chance(2, 3) {
            let mut k = cmd();
            if is_ugly {
                k.arg(flag);
            }
            let r = run(&mut k, Some(&text));
            same("butte < schema", want, &r, &r.out, &text)?;
            modes += 1;
        }
        // file to standard output
        if c.r.chance(2, 3) {
            let mut k = cmd();
            let done = with(&mut k, true, &mut c.r);
            k.arg(&input);
            if !done {
                k.arg(flag);
            }
            let r = run(&mut k, None);
            same("butte schema", want, &r, &r.out, &text)?;
            modes += 1;
        }
        // file to file, there or not before
        if c.r.chance(2, 3) {
            let out = d.0.join("out.rs");
            let _ = std::fs::remove_file(&out);
            if c.r.bool() {
                std::fs::write(&out, vec![b'x'; c.r.below(100_000)]).expect("harness: file");
            }
            let before = std::fs::read(&out).ok();
            let mut k = cmd();
            let done = with(&mut k, true, &mut c.r);
            k.arg(&input).arg(&out);
            if !done {
                k.arg(flag);
            }
            let r = run(&mut k, None);
            let mut got = std::fs::read(&out).unwrap_or_default();
            // leaving the old file alone is no code written
            if want.code().is_none() && before.as_ref() == Some(&got) {
                got.clear();
            }
            same("butte schema output", want, &r, &got, &text)?;
            if !r.out.is_empty() {
                return Err(format!("butte schema output: also writes {} bytes to standard output", r.out.len()));
            }
            modes += 1;
        }
    }
    // build scripts
    if c.r.chance(1, 2) {
        // the output is named after the schema, whatever that is called and wherever it lies
        let (name, out) = *c.r.pick(&[
            ("schema.fbs", "schema.rs"),
            ("a.b.fbs", "a.b.rs"),
            ("mod.schema", "mod.rs"),
            ("none", "none.rs"),
            ("x y.v2.fbs", "x y.v2.rs"),
            ("\u{e9}t\u{e9}.fbs", "\u{e9}t\u{e9}.rs"),
            (".hidden.fbs", ".hidden.rs"),
        ]);
        let dir = if c.r.bool() { d.0.clone() } else { d.0.join("in.d") };
        std::fs::create_dir_all(&dir).expect("harness: dir");
        let input = dir.join(name);
        std::fs::write(&input, &text).expect("harness: file");
        let out = d.0.join(out);
        let _ = std::fs::remove_file(&out);
        let r = run(Command::new(sibling("cg")).arg("fbs").arg(&input).env("OUT_DIR", &d.0), None);
        let got = std::fs::read(&out).unwrap_or_default();
        same(&format!("compile_fbs of {}", name), &fmt, &r, &got, &text)?;
        modes += 1;
    }
    c.st.count("entry_points", modes);
    Ok(())
}

/// The same text again and again in this process; other processes hash
/// differently, and so does every new table in this one.
fn repeat(c: &mut Case) -> V {
    let s = rand_schema(&mut c.r);
    let t = tokens(&s, &mut c.r);
    let text = if c.r.bool() { plain(&t) } else { layout(&mut c.r, &t) };
    let a = must(&text)?;
    for _ in 0..3 {
        let b = must(&text)?;
        if a != b {
            return Err(format!("the same schema gave different code\n{}", short(&text)));
        }
    }
    c.st.seen(text.as_bytes());
    c.st.count("repetitions", 3);
    Ok(())
}

pub fn c20(o: Opts) {
    let cases = o.cases;
    let work = PathBuf::from(o.get("work").expect("harness: work"));
    let mut rep = Report::new(o, "distinct schema texts compiled through several entry points and repeatedly, whose outputs were compared byte by byte").streams(2);
    rep.run("repeat", 3 * cases, repeat);
    rep.run("entry", cases, |c| entry_points(c, &work));
    rep.finish()
}

// ------------------------------------------------------------------- C21

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
];

/// A reader with faults.
struct FRead {
    b: Vec<u8>,
    pos: usize,
    fail_at: Option<usize>,
    kind: io::ErrorKind,
    r: Rng,
    short: bool,
    interrupts: bool,
    failed: Arc<Mutex<bool>>,
}
impl Read for FRead {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.fail_at == Some(self.pos) {
            *self.failed.lock().unwrap() = true;
            return Err(self.kind.into());
        }
        let end = self.fail_at.unwrap_or(self.b.len()).min(self.b.len());
        let mut n = out.len().min(end - self.pos);
        if self.short && n > 1 {
            let k = 1 + self.r.below(40);
            n = self.r.range(1, n.min(k));
        }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Default)]
struct Log {
    got: Vec<u8>,
    failed: bool,
    flushed: Option<usize>,
    writes: u64,
    interrupted: u64,
}

struct FWrite {
    log: Arc<Mutex<Log>>,
    fail_at: Option<usize>,
    fail_flush: bool,
    /// answers 0 instead of an error
    zero: bool,
    kind: io::ErrorKind,
    r: Rng,
    short: bool,
    interrupts: bool,
}
impl Write for FWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.log.lock().unwrap();
        l.writes += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            l.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let room = self.fail_at.map_or(usize::MAX, |f| f.saturating_sub(l.got.len()));
        if room == 0 {
            l.failed = true;
            return if self.zero { Ok(0) } else { Err(self.kind.into()) };
        }
        let mut n = b.len().min(room);
        if self.short && n > 1 {
            let k = 1 + self.r.below(4000);
            n = self.r.range(1, n.min(k));
        }
        l.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.lock().unwrap();
        if self.fail_flush {
            l.failed = true;
            return Err(self.kind.into());
        }
        l.flushed = Some(l.got.len());
        Ok(())
    }
}

fn faults(c: &mut Case) -> V {
    let s = rand_schema(&mut c.r);
    let t = tokens(&s, &mut c.r);
    let mut text = plain(&t).into_bytes();
    let valid = c.r.chance(4, 5);
    if !valid {
        match c.r.below(3) {
            0 => text.extend_from_slice(b" }"),
            1 => text.extend_from_slice(b" table Zq9 { x:Zq8; }"),
            _ => {
                // somewhere it is not UTF-8
                let i = c.r.below(text.len() + 1);
                let bad: &[u8] = c.r.pick(&[&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0x80], &[0xf0, 0x9f, 0xa6]]);
                for (k, b) in bad.iter().enumerate() {
                    text.insert(i + k, *b);
                }
            }
        }
    }
    let expected = if valid { must(&String::from_utf8(text.clone()).expect("harness: UTF-8"))? } else { String::new() };
    c.st.seen(&text);
    let n = expected.len();
    // several faults per schema
    for _ in 0..12 {
        let mode = c.r.below(6);
        let at = |r: &mut Rng, n: usize| match r.below(6) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            3 => r.below(n.min(64) + 1),
            _ => r.below(n + 1),
        };
        let log = Arc::new(Mutex::new(Log::default()));
        let rfailed = Arc::new(Mutex::new(false));
        let rd = FRead {
            b: text.clone(),
            pos: 0,
            fail_at: if mode == 0 { Some(at(&mut c.r, text.len())) } else { None },
            kind: *c.r.pick(&KINDS),
            r: Rng::new(c.r.u64()),
            short: c.r.bool(),
            interrupts: c.r.bool(),
            failed: rfailed.clone(),
        };
        let wr = FWrite {
            log: log.clone(),
            fail_at: if mode == 1 || mode == 2 { Some(at(&mut c.r, n)) } else { None },
            fail_flush: mode == 3,
            zero: c.r.chance(1, 5),
            kind: *c.r.pick(&KINDS),
            r: Rng::new(c.r.u64()),
            short: c.r.bool(),
            interrupts: c.r.bool(),
        };
        let desc = format!("read fault at {:?}, write fault at {:?}{}, flush fault {}", rd.fail_at, wr.fail_at, if wr.zero { " (write of 0)" } else { "" }, wr.fail_flush);
        let res = guard(move || butte_build::compile_fbs_generic(true, None, Box::new(rd), Box::new(wr)).map_err(|e| format!("{:#}", e)));
        let l = log.lock().unwrap_or_else(|p| p.into_inner());
        let fault = l.failed || *rfailed.lock().unwrap();
        let tx = || short(&String::from_utf8_lossy(&text));
        c.st.count("runs", 1);
        c.st.count("writes", l.writes);
        c.st.count("interrupted_writes", l.interrupted);
        match res {
            Err(p) => return Err(format!("{}: panic {}\n{}", desc, p, tx())),
            Ok(Ok(())) => {
                c.st.count("successes", 1);
                if fault {
                    return Err(format!("{}: reports success\n{}", desc, tx()));
                }
                if !valid {
                    return Err(format!("{}: an invalid schema reports success\n{}", desc, tx()));
                }
                if l.got != expected.as_bytes() {
                    return Err(format!("{}: reports success with {} of {} bytes delivered\n{}", desc, l.got.len(), n, tx()));
                }
                if l.flushed != Some(n) {
                    return Err(format!("{}: reports success without flushing the output\n{}", desc, tx()));
                }
            }
            Ok(Err(e)) => {
                c.st.count("errors", 1);
                if valid && !fault {
                    return Err(format!("{}: fails without a fault: {}\n{}", desc, e, tx()));
                }
                if (!valid || *rfailed.lock().unwrap()) && !l.got.is_empty() {
                    return Err(format!("{}: no schema was accepted, but {} bytes were delivered\n{}", desc, l.got.len(), tx()));
                }
                if !expected.as_bytes().starts_with(&l.got) {
                    return Err(format!("{}: delivered other bytes than the code\n{}", desc, tx()));
                }
            }
        }
    }
    Ok(())
}

/// Every byte offset of the input and of the output of one small schema.
fn every_offset(c: &mut Case) -> V {
    let texts = ["enum E:byte { A }", "table T { x:int = 3; }", "namespace n; enum E:ulong { A, B }"];
    let text = texts[c.n as usize % texts.len()].as_bytes().to_vec();
    let expected = must(std::str::from_utf8(&text).expect("harness: UTF-8"))?;
    let n = expected.len();
    let step = 1;
    for k in (0..=n).step_by(step) {
        let log = Arc::new(Mutex::new(Log::default()));
        let wr = FWrite {
            log: log.clone(),
            fail_at: Some(k),
            fail_flush: false,
            zero: false,
            kind: KINDS[k % KINDS.len()],
            r: Rng::new(k as u64),
            short: k % 2 == 0,
            interrupts: k % 3 == 0,
        };
        let src = io::Cursor::new(text.clone());
        let res = guard(move || butte_build::compile_fbs_generic(true, None, Box::new(src), Box::new(wr)).is_ok());
        let l = log.lock().unwrap_or_else(|p| p.into_inner());
        c.st.count("write_offsets", 1);
        match res {
            Ok(true) if k < n => return Err(format!("writing fails at byte {} of {} and compiling reports success", k, n)),
            Ok(false) if k == n => return Err("a writer with exactly enough room makes compiling fail".to_string()),
            Err(p) => return Err(format!("writing fails at byte {}: panic {}", k, p)),
            _ => {}
        }
        if !expected.as_bytes().starts_with(&l.got) {
            return Err(format!("writing fails at byte {}: other bytes than the code", k));
        }
    }
    for k in 0..=text.len() {
        let log = Arc::new(Mutex::new(Log::default()));
        let wr = FWrite { log: log.clone(), fail_at: None, fail_flush: false, zero: false, kind: KINDS[0], r: Rng::new(1), short: false, interrupts: false };
        let rd = FRead {
            b: text.clone(),
            pos: 0,
            fail_at: Some(k),
            kind: KINDS[k % KINDS.len()],
            r: Rng::new(k as u64),
            short: k % 2 == 0,
            interrupts: k % 3 == 0,
            failed: Arc::new(Mutex::new(false)),
        };
        let res = guard(move || butte_build::compile_fbs_generic(true, None, Box::new(rd), Box::new(wr)).is_ok());
        c.st.count("read_offsets", 1);
        let l = log.lock().unwrap_or_else(|p| p.into_inner());
        match res {
            Ok(false) if l.got.is_empty() => {}
            Ok(false) => return Err(format!("reading fails at byte {}: {} bytes were delivered", k, l.got.len())),
            Ok(true) => return Err(format!("reading fails at byte {} and compiling reports success", k)),
            Err(p) => return Err(format!("reading fails at byte {}: panic {}", k, p)),
        }
    }
    c.st.seen(&text);
    Ok(())
}

/// Formatters, as scripts found in PATH: (script, does the call succeed).
const EARLY: &str = "stops reading early and reports success";

fn formatters() -> Vec<(&'static str, Option<&'static str>, bool)> {
    vec![
        ("reads all, passes it on", Some("#!/bin/sh\nf=\"$0.in.$$\"\n/bin/cat > \"$f\"\n/bin/cat \"$f\"\n/bin/rm -f \"$f\"\n"), true),
        ("passes it on slowly in pieces", Some("#!/bin/sh\nf=\"$0.in.$$\"\n/bin/cat > \"$f\"\n/bin/dd if=\"$f\" bs=100 count=1 2>/dev/null\n/bin/sleep 0.05\n/bin/dd if=\"$f\" bs=100 skip=1 2>/dev/null\n/bin/rm -f \"$f\"\n"), true),
        ("fails at once", Some("#!/bin/sh\nexit 1\n"), false),
        ("fails after reading", Some("#!/bin/sh\n/bin/cat > /dev/null\nexit 1\n"), false),
        ("fails after writing all", Some("#!/bin/sh\nf=\"$0.in.$$\"\n/bin/cat > \"$f\"\n/bin/cat \"$f\"\n/bin/rm -f \"$f\"\nexit 1\n"), false),
        ("fails after writing a part", Some("#!/bin/sh\n/usr/bin/head -c 50\n/bin/cat > /dev/null\nexit 3\n"), false),
        ("killed after reading", Some("#!/bin/sh\n/bin/cat > /dev/null\nkill -9 $$\n"), false),
        ("killed after writing a part", Some("#!/bin/sh\n/usr/bin/head -c 50\n/bin/cat > /dev/null\nkill -9 $$\n"), false),
        ("terminated", Some("#!/bin/sh\nkill -15 $$\n"), false),
        ("closes its input and fails", Some("#!/bin/sh\nexec 0<&-\n/bin/sleep 0.02\nexit 1\n"), false),
        ("complains and fails", Some("#!/bin/sh\n/bin/cat > /dev/null\necho error >&2\nexit 1\n"), false),
        ("is not a program", Some("\u{0}\u{1}\u{2}"), false),
        ("does not exist", None, false),
        (EARLY, Some("#!/bin/sh\n/usr/bin/head -c 50\nexit 0\n"), false),
    ]
}

/// Written before there are threads: a script that is open for writing in
/// some process just being started cannot be run.
fn write_formatters(work: &Path) {
    use std::os::unix::fs::PermissionsExt;
    for (i, (_, script, _)) in formatters().iter().enumerate() {
        let bin = work.join(format!("bin{}", i));
        std::fs::create_dir_all(&bin).expect("harness: directory");
        if let Some(s) = script {
            let p = bin.join("rustfmt");
            std::fs::write(&p, s).expect("harness: script");
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).expect("harness: mode");
        }
    }
}

fn format_faults(c: &mut Case, work: &Path) -> V {
    let d = Dir::new(work, c, "f");
    let s = rand_schema(&mut c.r);
    let t = tokens(&s, &mut c.r);
    let mut text = plain(&t);
    let all = formatters();
    let (what, _, good) = &all[c.n as usize % all.len()];
    if *what == EARLY {
        // more than a pipe holds, so that the compiler must notice
        text.push_str(" namespace zq9; table Zq9 { ");
        for k in 0..700 {
            text.push_str(&format!("zq{}:int;", k));
        }
        text.push('}');
    }
    let code = must(&text)?;
    if *what == EARLY && code.len() < 250_000 {
        c.st.count("formatter.too_little_code", 1);
        return Ok(());
    }
    let input = d.file("schema.fbs", text.as_bytes());
    let bin = work.join(format!("bin{}", c.n as usize % all.len()));
    let fbs = c.r.bool();
    let out = d.0.join("schema.rs");
    let mut k;
    if fbs {
        k = Command::new(sibling("cg"));
        k.arg("fbs").arg(&input).env("OUT_DIR", &d.0);
    } else {
        k = Command::new(sibling("butte"));
        k.arg(&input);
        if c.r.bool() {
            k.arg(&out);
        }
    }
    let r = run(k.env("PATH", &bin), None);
    let mut got = std::fs::read(&out).unwrap_or_default();
    got.extend_from_slice(&r.out);
    c.st.count(&format!("formatter.{}", what.replace(' ', "_")), 1);
    c.st.seen(format!("{} {}", what, text).as_bytes());
    if r.status.starts_with("crashed") {
        return Err(format!("the formatter {}: {} {}", what, r.status, r.err));
    }
    if *good {
        if !r.ok {
            return Err(format!("the formatter {}: {} {}", what, r.status, r.err));
        }
        if got != code.as_bytes() {
            return Err(format!("the formatter {}: {} bytes were delivered, it wrote {}", what, got.len(), code.len()));
        }
    } else {
        if r.ok {
            return Err(format!("the formatter {}: compiling reports success", what));
        }
        if !got.is_empty() {
            return Err(format!("the formatter {}: {} bytes were delivered", what, got.len()));
        }
    }
    Ok(())
}

/// Faults of files and of standard output, through the program and the
/// function for build scripts.
fn file_faults(c: &mut Case, work: &Path) -> V {
    let d = Dir::new(work, c, "g");
    let s = rand_schema(&mut c.r);
    let text = plain(&tokens(&s, &mut c.r));
    let code = must(&text)?;
    let input = d.file("schema.fbs", text.as_bytes());
    let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").expect("harness: /dev/full");
    let ugly = c.r.chance(3, 4);
    let kind = c.n % 9;
    let mut k = Command::new(if kind < 6 { sibling("butte") } else { sibling("cg") });
    if kind < 6 && ugly {
        k.arg("-u");
    }
    let what = match kind {
        0 => {
            k.arg(&input).arg("/dev/full");
            "the output is a full device"
        }
        1 => {
            k.arg(&input);
            "standard output is a full device"
        }
        2 => {
            k.arg(d.0.join("none.fbs"));
            "the input does not exist"
        }
        3 => {
            k.arg(&d.0);
            "the input is a directory"
        }
        4 => {
            k.arg(&input).arg(d.0.join("no").join("out.rs"));
            "the directory of the output does not exist"
        }
        5 => {
            k.arg(&input).arg(&d.0);
            "the output is a directory"
        }
        6 => {
            k.arg("fbs").arg(d.0.join("none.fbs")).env("OUT_DIR", &d.0);
            "compile_fbs: the input does not exist"
        }
        7 => {
            k.arg("fbs").arg(&input).env("OUT_DIR", d.0.join("no"));
            "compile_fbs: OUT_DIR does not exist"
        }
        _ => {
            k.arg("fbs").arg(&input).env_remove("OUT_DIR");
            "compile_fbs: no OUT_DIR"
        }
    };
    k.stdin(Stdio::null()).stderr(Stdio::piped());
    if kind == 1 {
        k.stdout(full());
    } else {
        k.stdout(Stdio::piped());
    }
    let o = k.spawn().expect("harness: spawn").wait_with_output().expect("harness: wait");
    c.st.count(&format!("file.{}", what.replace(' ', "_")), 1);
    c.st.seen(format!("{} {}", what, text).as_bytes());
    let e = String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>();
    if o.status.code() == Some(101) || o.status.code().is_none() {
        return Err(format!("{}: {} {}", what, o.status, e));
    }
    if o.status.success() && !code.is_empty() {
        return Err(format!("{}: reports success", what));
    }
    Ok(())
}

pub fn c21(o: Opts) {
    let cases = o.cases;
    let work = PathBuf::from(o.get("work").expect("harness: work"));
    let mut rep = Report::new(o, "distinct schemas compiled with a fault at some byte of the input or output, at flushing, or in the formatter, judged by what was reported and delivered").streams(4);
    write_formatters(&work);
    rep.run("offsets", 3, every_offset);
    rep.run("faults", cases, faults);
    rep.run("formatter", cases / 8 + 42, |c| format_faults(c, &work));
    rep.run("files", cases / 8 + 27, |c| file_faults(c, &work));
    let _ = Sink::default();
    rep.finish()
}
