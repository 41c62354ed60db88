//! Index of every item in the macro-expanded crate, whatever module or anonymous const it is in.
use std::collections::HashMap;
use syn::visit::Visit;

pub struct ImplEntry {
    pub self_key: String,
    pub trait_key: Option<String>,
    pub item: syn::ItemImpl,
    /// named constants of the enclosing anonymous const block
    pub consts: Vec<syn::ItemConst>,
}

#[derive(Default)]
pub struct Index {
    pub impls: Vec<ImplEntry>,
    pub fns: HashMap<String, Vec<(syn::ItemFn, String)>>,
    pub structs: HashMap<String, syn::ItemStruct>,
    pub enums: HashMap<String, syn::ItemEnum>,
    pub traits: HashMap<String, syn::ItemTrait>,
    pub consts: HashMap<String, syn::ItemConst>,
    pub modules: Vec<String>,
}

/// Key of a type: last path segments, no lifetimes.
pub fn ty_key(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => path_key(&p.path, p.qself.is_some()),
        syn::Type::Reference(r) => format!("&{}", ty_key(&r.elem)),
        syn::Type::Slice(s) => format!("[{}]", ty_key(&s.elem)),
        syn::Type::Array(a) => {
            let len = &a.len;
            format!("[{};{}]", ty_key(&a.elem), quote::quote!(#len))
        }
        syn::Type::Paren(p) => ty_key(&p.elem),
        syn::Type::Group(p) => ty_key(&p.elem),
        syn::Type::Tuple(t) => format!(
            "({})",
            t.elems.iter().map(ty_key).collect::<Vec<_>>().join(",")
        ),
        other => quote::quote!(#other).to_string().replace(' ', ""),
    }
}

pub fn path_key(p: &syn::Path, _q: bool) -> String {
    let last = match p.segments.last() {
        Some(x) => x,
        None => return String::new(),
    };
    let mut s = last.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter_map(|x| match x {
                syn::GenericArgument::Lifetime(_) => None,
                syn::GenericArgument::Type(t) => Some(ty_key(t)),
                other => Some(quote::quote!(#other).to_string().replace(' ', "")),
            })
            .collect();
        if !args.is_empty() {
            s.push_str(&format!("<{}>", args.join(",")));
        }
    }
    s
}

impl Index {
    pub fn build(file: &syn::File) -> Self {
        let mut x = Index::default();
        x.items(&file.items, &[], "");
        x
    }

    fn items(&mut self, items: &[syn::Item], consts: &[syn::ItemConst], path: &str) {
        let mut local: Vec<syn::ItemConst> = consts.to_vec();
        if path.contains("{const}") {
            for i in items {
                if let syn::Item::Const(c) = i {
                    local.push(c.clone());
                }
            }
        }
        for i in items {
            match i {
                syn::Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.modules.push(m.ident.to_string());
                        self.items(items, &local, &format!("{path}{}::", m.ident));
                    }
                }
                syn::Item::Const(c) => {
                    if c.ident == "_" {
                        if let syn::Expr::Block(b) = &*c.expr {
                            let items: Vec<syn::Item> = b
                                .block
                                .stmts
                                .iter()
                                .filter_map(|s| match s {
                                    syn::Stmt::Item(i) => Some(i.clone()),
                                    _ => None,
                                })
                                .collect();
                            self.items(&items, &local, &format!("{path}{{const}}::"));
                        }
                    } else {
                        self.consts.insert(c.ident.to_string(), c.clone());
                    }
                }
                syn::Item::Fn(f) => {
                    self.add_fn(f.sig.ident.to_string(), f.clone(), path.to_string());
                    self.nested(&f.sig.ident.to_string(), &f.block, path);
                }
                syn::Item::Impl(im) => {
                    let trait_key = im.trait_.as_ref().map(|(_, p, _)| path_key(p, false));
                    let self_key = ty_key(&im.self_ty);
                    for it in &im.items {
                        if let syn::ImplItem::Fn(f) = it {
                            let base = match &trait_key {
                                Some(t) => format!("<{self_key} as {t}>::{}", f.sig.ident),
                                None => format!("{}::{}", short(&self_key), f.sig.ident),
                            };
                            self.nested(&base, &f.block, path);
                        }
                    }
                    if let Some(t) = &trait_key {
                        for it in &im.items {
                            if let syn::ImplItem::Const(c) = it {
                                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                                let key = format!("<{self_key} as {t}>::{id}");
                                self.consts.insert(key.clone(), syn::parse_quote!(const #id: #ty = #e;));
                                // its value as a function, to have a contract
                                let f: syn::ItemFn = match e {
                                    syn::Expr::Reference(r) if matches!(&*r.expr, syn::Expr::Array(_)) => {
                                        let a = &r.expr;
                                        syn::parse_quote!(fn #id() -> #ty { vx_leak(#a) })
                                    }
                                    _ => syn::parse_quote!(fn #id() -> #ty { #e }),
                                };
                                self.add_fn(key, f, path.to_string());
                            }
                        }
                    }
                    self.impls.push(ImplEntry {
                        self_key,
                        trait_key,
                        item: im.clone(),
                        consts: local.clone(),
                    });
                }
                syn::Item::Struct(s) => {
                    // bitflags generate several structs of the same name in inner scopes
                    self.structs.entry(s.ident.to_string()).or_insert(s.clone());
                    self.structs.entry(format!("{path}{}", s.ident)).or_insert(s.clone());
                }
                syn::Item::Enum(s) => {
                    self.enums.insert(s.ident.to_string(), s.clone());
                    self.enums.insert(format!("{path}{}", s.ident), s.clone());
                }
                syn::Item::Trait(t) => {
                    self.traits.insert(t.ident.to_string(), t.clone());
                    // default methods, as an implementation for a stand-in type
                    let id = &t.ident;
                    let me = quote::format_ident!("VxSelf{}", id);
                    let fns: Vec<syn::ImplItem> = t
                        .items
                        .iter()
                        .filter_map(|it| match it {
                            syn::TraitItem::Fn(f) => {
                                let b = f.default.as_ref()?;
                                let sig = &f.sig;
                                Some(syn::parse_quote!(#sig #b))
                            }
                            _ => None,
                        })
                        .collect();
                    self.impls.push(ImplEntry {
                        self_key: t.ident.to_string(),
                        trait_key: None,
                        item: syn::parse_quote!(impl #id for #me { #(#fns)* }),
                        consts: local.clone(),
                    });
                    for it in &t.items {
                        if let syn::TraitItem::Fn(f) = it {
                            if let Some(b) = &f.default {
                                self.nested(&format!("{}::{}", t.ident, f.sig.ident), b, path);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn add_fn(&mut self, key: String, f: syn::ItemFn, path: String) {
        self.fns.entry(key).or_default().push((f, path));
    }

    fn nested(&mut self, base: &str, block: &syn::Block, path: &str) {
        struct V<'a>(&'a mut Vec<syn::ItemFn>);
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
                self.0.push(f.clone());
            }
        }
        let mut v = vec![];
        V(&mut v).visit_block(block);
        for f in v {
            let key = format!("{base}::{}", f.sig.ident);
            self.add_fn(key, f, path.to_string());
        }
    }

    /// All impl blocks matching a self type key (generics optional) and trait key.
    pub fn find_impls(&self, self_key: &str, trait_key: Option<&str>) -> Vec<usize> {
        let m = |k: &str, want: &str| k == want || (!want.contains('<') && short(k) == want);
        self.impls
            .iter()
            .enumerate()
            .filter(|(_, e)| {
                m(&e.self_key, self_key)
                    && match (&e.trait_key, trait_key) {
                        (None, None) => true,
                        (Some(a), Some(b)) => m(a, b),
                        _ => false,
                    }
            })
            .map(|(i, _)| i)
            .collect()
    }
}

pub fn short(k: &str) -> String {
    match k.find('<') {
        Some(p) if !k.starts_with('<') && !k.starts_with('&') && !k.starts_with('[') => {
            k[..p].to_string()
        }
        _ => k.to_string(),
    }
}
