//! Looking at generated Rust.
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};

/// Every item with the path of its module, sorted.
pub fn canonical(code: &str) -> Result<Vec<String>, String> {
    let f = parse(code)?;
    let mut out = vec![];
    fn walk(path: &str, items: &[syn::Item], out: &mut Vec<String>) {
        for i in items {
            match i {
                syn::Item::Mod(m) if m.content.is_some() => {
                    let (_, inner) = m.content.as_ref().expect("harness: content");
                    walk(&format!("{}::{}", path, m.ident), inner, out);
                }
                i => out.push(format!("{} {}", path, i.to_token_stream())),
            }
        }
    }
    walk("", &f.items, &mut out);
    out.sort();
    Ok(out)
}

pub fn parse(code: &str) -> Result<syn::File, String> {
    syn::parse_file(code).map_err(|e| format!("the generated code is not Rust: {}", e))
}

pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let cut = |s: &String| s.chars().take(400).collect::<String>();
    let x = a.iter().find(|x| !b.contains(x)).map(cut);
    let y = b.iter().find(|x| !a.contains(x)).map(cut);
    Some(format!("{} and {} items, only here {:?}, only there {:?}", a.len(), b.len(), x, y))
}

#[derive(Clone, Debug)]
pub struct DocAt {
    pub text: String,
    pub name: String,
    pub within: String,
}

struct Strip {
    found: Vec<DocAt>,
    stack: Vec<String>,
}

impl Strip {
    fn take(&mut self, attrs: &mut Vec<syn::Attribute>, name: &str) {
        let mut keep = vec![];
        for a in attrs.drain(..) {
            if a.path.is_ident("doc") {
                if let Ok(syn::Meta::NameValue(syn::MetaNameValue { lit: syn::Lit::Str(s), .. })) = a.parse_meta() {
                    self.found.push(DocAt { text: s.value(), name: name.to_string(), within: self.stack.last().cloned().unwrap_or_default() });
                }
            } else {
                keep.push(a);
            }
        }
        *attrs = keep;
    }
}

impl VisitMut for Strip {
    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) {
        let n = i.ident.to_string();
        self.take(&mut i.attrs, &n);
        self.stack.push(n);
        visit_mut::visit_item_struct_mut(self, i);
        self.stack.pop();
    }
    fn visit_item_enum_mut(&mut self, i: &mut syn::ItemEnum) {
        let n = i.ident.to_string();
        self.take(&mut i.attrs, &n);
        self.stack.push(n);
        visit_mut::visit_item_enum_mut(self, i);
        self.stack.pop();
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        let n = match &*i.self_ty {
            syn::Type::Path(p) => p.path.segments.last().map_or(String::new(), |s| s.ident.to_string()),
            _ => String::new(),
        };
        self.take(&mut i.attrs, &n);
        self.stack.push(n);
        visit_mut::visit_item_impl_mut(self, i);
        self.stack.pop();
    }
    fn visit_impl_item_method_mut(&mut self, i: &mut syn::ImplItemMethod) {
        let n = i.sig.ident.to_string();
        self.take(&mut i.attrs, &n);
        visit_mut::visit_impl_item_method_mut(self, i);
    }
    fn visit_variant_mut(&mut self, i: &mut syn::Variant) {
        let n = i.ident.to_string();
        self.take(&mut i.attrs, &n);
        visit_mut::visit_variant_mut(self, i);
    }
    fn visit_field_mut(&mut self, i: &mut syn::Field) {
        let n = i.ident.as_ref().map_or(String::new(), |x| x.to_string());
        self.take(&mut i.attrs, &n);
        visit_mut::visit_field_mut(self, i);
    }
    fn visit_item_fn_mut(&mut self, i: &mut syn::ItemFn) {
        let n = i.sig.ident.to_string();
        self.take(&mut i.attrs, &n);
        visit_mut::visit_item_fn_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, i: &mut syn::ItemConst) {
        let n = i.ident.to_string();
        self.take(&mut i.attrs, &n);
        visit_mut::visit_item_const_mut(self, i);
    }
    fn visit_item_mod_mut(&mut self, i: &mut syn::ItemMod) {
        let n = i.ident.to_string();
        self.take(&mut i.attrs, &n);
        visit_mut::visit_item_mod_mut(self, i);
    }
}

/// The code without documentation, and the documentation it had.
pub fn strip_docs(code: &str) -> Result<(String, Vec<DocAt>), String> {
    let mut f = parse(code)?;
    let mut s = Strip { found: vec![], stack: vec![] };
    s.visit_file_mut(&mut f);
    Ok((f.to_token_stream().to_string(), s.found))
}

/// The modules and values of the string constants `TAG` of impls.
pub fn consts(code: &str) -> Result<Vec<(Vec<String>, String)>, String> {
    let f = parse(code)?;
    let mut out = vec![];
    fn walk(path: &mut Vec<String>, items: &[syn::Item], out: &mut Vec<(Vec<String>, String)>) {
        for i in items {
            match i {
                syn::Item::Mod(m) => {
                    if let Some((_, inner)) = &m.content {
                        path.push(m.ident.to_string());
                        walk(path, inner, out);
                        path.pop();
                    }
                }
                syn::Item::Impl(i) => {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if let (true, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = (c.ident == "TAG", &c.expr) {
                                out.push((path.clone(), s.value()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    walk(&mut vec![], &f.items, &mut out);
    Ok(out)
}
