//! Writes the adapter that maps the generated code of one schema onto the
//! traits of `glue`: only through what the generated code makes public.
use model::names::*;
use model::schema::Schema;
use model::*;
use std::fmt::Write;

pub struct A<'a> {
    pub s: &'a Schema,
    pub o: String,
}

fn module(ns: &[String]) -> String {
    let mut s = String::from("gen");
    for n in ns {
        s.push_str("::");
        s.push_str(&snake(n));
    }
    s
}
pub fn path(ns: &[String], name: &str) -> String {
    format!("{}::{}", module(ns), fix(name))
}
fn utype(u: &UnionT) -> String {
    format!("{}::butte_gen::{}", module(&u.ns), fix(&format!("{}Type", u.name)))
}

impl<'a> A<'a> {
    fn tp(&self, i: usize) -> String {
        let t = &self.s.env.tables[i];
        path(&t.ns, &t.name)
    }
    fn has_default(&self, i: usize) -> bool {
        self.s.env.tables[i].fields.iter().all(|f| !f.required || !f.ty.is_ref())
    }

    fn enum_fns(&self, p: &str, enum_name: &str, base: &str, vars: &[String]) -> String {
        let mut a = String::new();
        let arm = |x: &str| vars.iter().enumerate().map(|(k, v)| format!("{} => {}, ", k, x.replace("@", &format!("{}::{}", p, v)))).collect::<String>();
        let _ = write!(
            a,
            "glue::EnumFns {{ from: |s| <{p} as std::convert::TryFrom<{b}>>::try_from(<{b} as glue::Scalar>::of(s)).map(|harness_e| glue::en(&harness_e)), \
             to: |k| glue::Scalar::sc(&<{b} as std::convert::From<{p}>>::from(match k {{ {v} _ => panic!(\"harness: variant\") }})), \
             cast: |k| glue::Scalar::sc(&(match k {{ {v} _ => panic!(\"harness: variant\") }} as {b})), \
             name: |k| {n}(match k {{ {v} _ => panic!(\"harness: variant\") }}), \
             default: || glue::en(&<{p} as std::default::Default>::default()) }},\n",
            p = p,
            b = base,
            v = arm("@"),
            n = enum_name
        );
        a
    }

    fn enum_obs(&mut self, p: &str, vars: &[String]) {
        let arms: String = vars.iter().enumerate().map(|(k, v)| format!("{}::{} => {}, ", p, v, k)).collect();
        let _ = writeln!(self.o, "impl glue::Observe for {} {{ fn obs(&self, _: &mut glue::Cx) -> glue::Obs {{ glue::Obs::En(match self {{ {} }}) }} }}", p, arms);
    }

    /// Expression building `v` (a `&Val`) of type `ty`.
    fn mk(&self, ty: &Ty) -> String {
        match ty {
            Ty::S(t) => format!("glue::sc::<{}>(v)", t.rust()),
            Ty::Enum(e) => format!("e{}(glue::int(v))", e),
            Ty::Str => "glue::mk_str(fbb, v, m)".into(),
            Ty::Tab(i) => format!(
                "(match m.get(glue::key(v)) {{ Some(o) => butte::WIPOffset::new(o), None => {{ let o = b{}(fbb, glue::tb(v), m); m.put(glue::key(v), o.value()); o }} }})",
                i
            ),
            Ty::Vec(e) => {
                let alt = match &**e {
                    Ty::Str => "if m.alt { let ys: Vec<&str> = glue::vc(v).iter().map(glue::st).collect(); fbb.create_vector_of_strings(&ys) } else ",
                    Ty::S(ST::U8) => "if m.alt { let ys: Vec<u8> = glue::vc(v).iter().map(glue::sc::<u8>).collect(); fbb.create_vector_direct(&ys) } else ",
                    _ => "",
                };
                format!(
                    "(match m.get(glue::key(v)) {{ Some(o) => butte::WIPOffset::new(o), None => {{ let o = {} {{ let mut ys = Vec::new(); for v in glue::vc(v) {{ ys.push({}); }} fbb.create_vector(&ys) }}; m.put(glue::key(v), o.value()); o }} }})",
                    alt,
                    self.mk(e)
                )
            }
            _ => panic!("harness: build"),
        }
    }

    pub fn write(mut self, idx: u64, ver: usize) -> String {
        let env = &self.s.env;
        let mut enums = String::new();
        let mut utypes = String::new();
        for (i, e) in env.enums.iter().enumerate() {
            let p = path(&e.ns, &e.name);
            let vars: Vec<String> = e.variants.iter().map(|v| fix(&v.0)).collect();
            self.enum_obs(&p, &vars);
            enums += &self.enum_fns(&p, &format!("{}::enum_name_{}", module(&e.ns), words(&fix(&e.name)).join("_")), e.base.rust(), &vars);
            let arms: String = e.variants.iter().map(|v| format!("{} => {}::{}, ", v.2, p, fix(&v.0))).collect();
            let _ = writeln!(self.o, "fn e{}(v: i128) -> {} {{ match v {{ {} _ => panic!(\"harness: variant\") }} }}", i, p, arms);
        }
        for u in &env.unions {
            let p = path(&u.ns, &u.name);
            let t = utype(u);
            let mut vars = vec!["None".to_string()];
            vars.extend(u.variants.iter().map(|v| fix(&env.tables[v.0].name)));
            self.enum_obs(&t, &vars);
            // the name function is named after the type enum
            let n = words(&format!("{}Type", u.name)).join("_");
            utypes += &self.enum_fns(&t, &format!("{}::butte_gen::enum_name_{}", module(&u.ns), n), "u8", &vars);
            let arms: String = u
                .variants
                .iter()
                .enumerate()
                .map(|(k, v)| {
                    format!(
                        "{}::{}(t) => {{ let ty = glue::Observe::obs(&self.get_type(), cx); glue::Obs::Var({}, Box::new(ty), Box::new(glue::Observe::obs(t, cx))) }} ",
                        p,
                        fix(&env.tables[v.0].name),
                        k
                    )
                })
                .collect();
            let _ = writeln!(self.o, "impl glue::Observe for {}<'_> {{ fn obs(&self, cx: &mut glue::Cx) -> glue::Obs {{ match self {{ {} }} }} }}", p, arms);
        }
        for (i, t) in env.tables.iter().enumerate() {
            let p = self.tp(i);
            // reading
            let mut body = String::new();
            for f in &t.fields {
                if let Ty::Union(_) = f.ty {
                    let _ = write!(
                        body,
                        "{{ let t = glue::Observe::obs(&self.{}(), cx); let v = glue::Observe::obs(&self.{}(), cx); o.push(glue::Obs::Un(Box::new(t), Box::new(v))); }}\n",
                        union_type_acc(&f.name),
                        snake(&f.name)
                    );
                } else {
                    let _ = write!(body, "o.push(glue::Observe::obs(&self.{}(), cx));\n", snake(&f.name));
                }
            }
            let _ = writeln!(
                self.o,
                "impl<B: AsRef<[u8]>> glue::Observe for {}<B> {{ fn obs(&self, cx: &mut glue::Cx) -> glue::Obs {{ cx.tab(|cx, o| {{ {} }}) }} }}",
                p, body
            );
            let _ = writeln!(
                self.o,
                "fn r{i}(b: &[u8], how: usize, cx: &mut glue::Cx) -> glue::Obs {{ match how {{
                0 => glue::Observe::obs(&<{p}<&[u8]>>::get_root(b), cx),
                1 => glue::Observe::obs(&<{p}<Vec<u8>>>::get_root(b.to_vec()), cx),
                2 => glue::Observe::obs(&butte::get_root::<{p}<_>, _>(b), cx),
                3 => glue::Observe::obs(&butte::get_root::<{p}<_>, _>(std::borrow::Cow::Borrowed(b)), cx),
                4 => glue::Observe::obs(&butte::Table::get_root(b).map(|t| <{p}<&[u8]> as From<butte::Table<&[u8]>>>::from(t)), cx),
                _ => glue::Observe::obs(&<{p}<&[u8]>>::get_root(b).map(|t| <{p}<&[u8]> as From<butte::Table<&[u8]>>>::from(<butte::Table<&[u8]> as From<{p}<&[u8]>>>::from(t))), cx),
                }} }}",
                i = i,
                p = p
            );
            // building
            let args = format!("{}Args", p);
            let dflt = self.has_default(i);
            let mut pre = String::new();
            let mut init = String::new();
            let mut obs = String::new();
            let sets: Vec<&Field> = t.fields.iter().collect();
            if dflt && t.fields.iter().any(|f| !f.ty.is_ref()) {
                let _ = write!(pre, "let d = <{} as std::default::Default>::default();\n", args);
            }
            for (k, f) in sets.iter().enumerate() {
                let arg = fix(&f.name);
                match &f.ty {
                    Ty::S(_) | Ty::Enum(_) => {
                        let unset = match (&f.ty, f.default) {
                            (Ty::S(t), Some(d)) => format!("glue::bits::<{}>(glue::model::ST::{:?}, {}u64)", t.rust(), t, d.bits),
                            (Ty::Enum(e), d) => {
                                let d = d.map_or(env.enums[*e].variants[0].2, |d| d.as_int());
                                format!("e{}({})", e, d)
                            }
                            _ => panic!("harness: default"),
                        };
                        let unset = if dflt { format!("if m.arg_defaults {{ d.{} }} else {{ {} }}", arg, unset) } else { unset };
                        let _ = write!(pre, "let a{} = match &t.f[{}] {{ Some(v) => {}, None => {} }};\n", k, k, self.mk(&f.ty), unset);
                        let _ = write!(init, "{}: a{}, ", arg, k);
                        let _ = write!(obs, "o.push(glue::Observe::obs(&d.{}, cx));\n", arg);
                    }
                    Ty::Union(u) => {
                        let ut = &env.unions[*u];
                        let tp = utype(ut);
                        let arms: String = ut
                            .variants
                            .iter()
                            .enumerate()
                            .map(|(j, v)| format!("({}, t) => ({}::{}, b{}(fbb, t, m).as_union_value()), ", j, tp, fix(&env.tables[v.0].name), v.0))
                            .collect();
                        let some = format!("match glue::un(v) {{ {} _ => panic!(\"harness: variant\") }}", arms);
                        let ta = union_type(&f.name);
                        if f.required {
                            let _ = write!(pre, "let (a{k}, c{k}) = match &t.f[{k}] {{ Some(v) => {s}, None => panic!(\"harness: required\") }};\n", k = k, s = some);
                        } else {
                            let _ = write!(
                                pre,
                                "let (a{k}, c{k}) = match &t.f[{k}] {{ Some(v) => {{ let (harness_a, harness_c) = {s}; (harness_a, Some(harness_c)) }} None => ({t}::None, None) }};\n",
                                k = k,
                                s = some,
                                t = tp
                            );
                        }
                        let _ = write!(init, "{}: a{}, {}: c{}, ", ta, k, arg, k);
                        let _ = write!(
                            obs,
                            "{{ let t = glue::Observe::obs(&d.{}, cx); let v = glue::Observe::obs(&d.{}, cx); o.push(glue::Obs::Un(Box::new(t), Box::new(v))); }}\n",
                            ta, arg
                        );
                    }
                    ty => {
                        if f.required {
                            let _ = write!(pre, "let a{k} = match &t.f[{k}] {{ Some(v) => {s}, None => panic!(\"harness: required\") }};\n", k = k, s = self.mk(ty));
                        } else {
                            let _ = write!(pre, "let a{k} = match &t.f[{k}] {{ Some(v) => Some({s}), None => None }};\n", k = k, s = self.mk(ty));
                        }
                        let _ = write!(init, "{}: a{}, ", arg, k);
                        let _ = write!(obs, "o.push(glue::Observe::obs(&d.{}, cx));\n", arg);
                    }
                }
            }
            let _ = writeln!(
                self.o,
                "fn b{i}<'f>(fbb: &mut butte::FlatBufferBuilder<'f>, t: &glue::model::TVal, m: &mut glue::BCx) -> butte::WIPOffset<{p}<&'f [u8]>> {{ {pre} let args = {args} {{ {init} }}; <{p}<&[u8]>>::create(fbb, &args) }}
                fn bb{i}(fbb: &mut butte::FlatBufferBuilder<'_>, t: &glue::model::TVal, m: &mut glue::BCx) -> u32 {{ b{i}(fbb, t, m).value() }}",
                i = i,
                p = p,
                pre = pre,
                args = args,
                init = init
            );
            let _ = writeln!(
                self.o,
                "fn n{i}(fbb: &mut butte::FlatBufferBuilder<'_>) -> u32 {{ {p}Builder::new(fbb).finish().value() }}",
                i = i,
                p = path(&t.ns, &t.name)
            );
            if dflt {
                let _ = writeln!(
                    self.o,
                    "fn a{}() -> Option<Vec<glue::Obs>> {{ let d = <{} as std::default::Default>::default(); let mut o = vec![]; let cx = &mut glue::Cx::new(1000); {} Some(o) }}",
                    i, args, obs
                );
            } else {
                let _ = writeln!(self.o, "fn a{}() -> Option<Vec<glue::Obs>> {{ None }}", i);
            }
        }
        let list = |x: &str| (0..env.tables.len()).map(|i| format!("{}{}, ", x, i)).collect::<String>();
        let _ = writeln!(
            self.o,
            "pub const SFN: glue::Sfn = glue::Sfn {{ idx: {}, ver: {}, build: &[{}], empty: &[{}], read: &[{}], args: &[{}], enums: &[{}], utypes: &[{}] }};",
            idx,
            ver,
            list("bb"),
            list("n"),
            list("r"),
            list("a"),
            enums,
            utypes
        );
        self.o
    }
}
