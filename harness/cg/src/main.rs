mod adapt;
mod grammar;
mod io;
mod local;
mod rs;
mod sut;
use model::schema::{for_prop, plain, layout, tokens};
use model::Rng;

/// The text of version `ver` of a schema.
pub fn text(prop: &str, seed: u64, idx: u64, ver: usize, s: &model::schema::Schema) -> String {
    let mut r = Rng::case(seed, &format!("text.{}.{}", prop, ver), idx);
    let t = tokens(s, &mut r);
    if r.bool() {
        plain(&t)
    } else {
        layout(&mut r, &t)
    }
}

/// batch PROP SEED OUT IDX...: writes the source of a program with the
/// generated code of some schemas and their adapters. Prints per schema
/// whether it was accepted.
fn batch(a: &[String]) {
    let (prop, seed, out) = (&a[0], a[1].parse().expect("seed"), &a[2]);
    model::run::quiet_panics();
    let mut src = String::from("#![allow(warnings)]\n");
    let mut list = String::new();
    let mut n = 0;
    for idx in &a[3..] {
        let idx: u64 = idx.parse().expect("idx");
        let mut mods = String::new();
        let mut ok = true;
        let mut sfns = String::new();
        for (ver, s) in for_prop(prop, seed, idx).iter().enumerate() {
            let t = text(prop, seed, idx, ver, s);
            match sut::compile(&t) {
                sut::Out::Code(c) => {
                    mods += &format!("mod s{}_{} {{\npub mod gen {{\n{}\n}}\n", idx, ver, c);
                    if prop != "C12" {
                        mods += &adapt::A { s, o: String::new() }.write(idx, ver);
                        sfns += &format!("s{}_{}::SFN, ", idx, ver);
                    }
                    mods += "}\n";
                }
                sut::Out::Rejected(e) => {
                    println!("REJECTED {} {} {}", idx, ver, model::run::js(&e));
                    ok = false;
                }
                sut::Out::Panic(e) => {
                    println!("PANIC {} {} {}", idx, ver, model::run::js(&e));
                    ok = false;
                }
            }
        }
        if ok {
            println!("OK {}", idx);
            src += &mods;
            list += &sfns;
            n += 1;
        }
    }
    if prop == "C12" {
        src += "fn main() {}\n";
    } else {
        src += &format!("fn main() {{ glue::run::main(&[{}]); }}\n", list);
    }
    println!("SCHEMAS {}", n);
    std::fs::write(out, src).expect("write");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match &a[0][..] {
        "batch" => batch(&a[1..]),
        "check" => {
            let o = model::run::Opts::parse_from(a[1..].iter().cloned());
            match &o.prop.clone()[..] {
                "C11" => local::c11(o),
                "C18" => local::c18(o),
                "C19" => local::c19(o),
                "C20" => io::c20(o),
                "C21" => io::c21(o),
                "C22" => local::c22(o),
                "C23" => local::c23(o),
                p => panic!("property {}", p),
            }
        }
        "fbs" => io::fbs(&a[1]),
        "text" => {
            let (prop, seed, idx) = (&a[1], a[2].parse().expect("seed"), a[3].parse().expect("idx"));
            for (ver, s) in for_prop(prop, seed, idx).iter().enumerate() {
                println!("{}", text(prop, seed, idx, ver, s));
            }
        }
        x => panic!("command {}", x),
    }
}
