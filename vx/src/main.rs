//! vx: attaches contracts to functions taken from the macro-expanded crate and writes one Verus file.
//!
//! usage: vx --expanded FILE --specs DIR --units a,b --out FILE --report FILE [--smoke]
mod index;
mod inline;
mod print;
mod rules;
mod spec;

use index::*;
use quote::{format_ident, quote};
use rules::*;
use spec::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The units whose functions are verified in this run (all when absent).
fn only() -> Option<Vec<String>> {
    arg("--only").map(|s| s.split(',').map(|x| x.to_string()).collect())
}

struct Out {
    text: String,
    lost: Vec<String>,
    /// functions some of whose proof hints found no place any more
    soft: Vec<(String, String)>,
    fns: Vec<String>,
    counts: BTreeMap<String, usize>,
}

fn make_pub(v: &mut syn::Visibility) {
    *v = syn::parse_quote!(pub);
}

fn normal(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// Position of the generated text into which marker `n` expands.
fn place(text: &mut String, n: usize, with: &str, before_brace: bool) {
    let pats = [
        format!("__vx_mark !({n}) ;\n"),
        format!("__vx_mark ! ({n}) ;\n"),
        format!("__vx_mark !({n} ) ;\n"),
        format!("__vx_mark ! ({n} ) ;\n"),
    ];
    for p in pats {
        if let Some(pos) = text.find(&p) {
            text.replace_range(pos..pos + p.len(), "");
            let at = if before_brace {
                text[..pos].rfind('{').expect("brace before marker")
            } else {
                pos
            };
            text.insert_str(at, &format!("\n{with}\n"));
            return;
        }
    }
    panic!("marker {n} lost");
}

fn main() {
    let expanded = std::fs::read_to_string(arg("--expanded").expect("--expanded")).expect("read");
    let specs_dir = arg("--specs").expect("--specs");
    let units: Vec<String> = arg("--units")
        .expect("--units")
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let smoke = std::env::args().any(|x| x == "--smoke");
    let mut file = match syn::parse_file(&expanded) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vx: cannot parse the expanded crate: {e}");
            std::process::exit(3);
        }
    };
    if std::env::args().any(|x| x == "--list") {
        print!("{}", inline::list(&file));
        return;
    }
    let known = std::fs::read_to_string(format!("{specs_dir}/known.txt")).unwrap_or_default();
    let inlined = if known.is_empty() { BTreeMap::new() } else { inline::run(&mut file, &known) };
    let idx = Index::build(&file);
    let specs = match Specs::load(&specs_dir, &units) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(4);
        }
    };

    let mut base = Ctx::default();
    for (a, b) in &specs.paths {
        base.path_rules
            .push((a.split("::").map(|s| s.to_string()).collect(), b.clone()));
    }
    for (a, b) in &specs.tys {
        base.ty_rules.insert(a.clone(), b.clone());
    }
    for (n, c) in &idx.consts {
        // constants the pinned crate did not have stand for their value
        if !known.is_empty() && !n.contains(' ') && !known.lines().any(|l| l.strip_prefix("const ") == Some(n)) {
            if let Some(v) = const_value(&c.expr) {
                base.const_subst.insert(n.clone(), v);
            }
        }
        let t = &c.ty;
        let t = quote!(#t).to_string().replace(' ', "");
        if t == "&[u8]" || t == "&'static[u8]" {
            base.byte_consts.push(n.clone());
        }
    }

    let mut out = Out {
        text: String::new(),
        lost: vec![],
        soft: vec![],
        fns: vec![],
        counts: inlined,
    };
    out.text.push_str(
        "#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n",
    );

    let mut impl_extra: HashMap<String, String> = HashMap::new();
    for (_, e) in &specs.entries {
        if let Entry::Impl { key, text } = e {
            impl_extra.insert(key.clone(), text.clone());
        }
    }

    // functions grouped by impl block
    let mut by_impl: BTreeMap<usize, Vec<&FnSpec>> = BTreeMap::new();
    let mut used_impl: HashSet<usize> = HashSet::new();

    for (unit, e) in &specs.entries {
        match e {
            Entry::Raw(t) => {
                let t = if only().is_some_and(|o| !o.contains(unit)) { believed(t) } else { t.clone() };
                out.text.push_str(&format!("\n//@spec {unit}\n{t}\n"));
            }
            Entry::Const { name, rename } => match idx.consts.get(name) {
                Some(c) => {
                    let mut ctx = base.clone();
                    let mut c = c.clone();
                    Rules(&mut ctx).visit_item_const_mut(&mut c);
                    make_pub(&mut c.vis);
                    if let Some(n) = rename {
                        c.ident = format_ident!("{}", n);
                    }
                    let ty = quote::ToTokens::to_token_stream(&c.ty).to_string().replace(' ', "");
                    // byte strings become an exec const with its contents as contract
                    let orig = &idx.consts[name];
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = &*orig.expr {
                        let v: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
                        out.text.push_str(&format!(
                            "pub exec const {name}: &'static [u8] ensures {name}@ == seq![{0}] {{ let r: &'static [u8; {1}] = &[{0}]; assert(r@ =~= seq![{0}]); r }}\n",
                            v.join(", "), v.len()
                        ));
                    } else {
                        let _ = ty;
                        out.text.push_str(&print::print(quote!(#c)));
                    }
                }
                None => out.lost.push(format!("const {name}")),
            },
            Entry::Flags { name, ty, implicit } => emit_flags(&idx, &mut out, name, ty, *implicit),
            Entry::Type { name, derive, attrs, rename, unit } => emit_type(&idx, &unit_ctx(&specs, &base, unit), &mut out, name, rename.as_deref(), derive, attrs),
            Entry::Impl { .. } => {}
            Entry::Fn(f) => {
                // nested or free fn, or method
                if idx.fns.contains_key(&f.key) {
                    let list = &idx.fns[&f.key];
                    if list.len() != 1 {
                        out.lost.push(format!("{} (ambiguous: {})", f.key, list.len()));
                        continue;
                    }
                    let (item, _) = &list[0];
                    emit_free(&specs, &base, &mut out, f, item, smoke);
                    continue;
                }
                let mut found = vec![];
                if let Some((imp, method)) = split_key(&f.key) {
                    let (sk, tk) = parse_impl_key(&imp);
                    for i in idx.find_impls(&sk, tk.as_deref()) {
                        if idx.impls[i].item.items.iter().any(
                            |it| matches!(it, syn::ImplItem::Fn(x) if x.sig.ident == method),
                        ) {
                            found.push(i);
                        }
                    }
                }
                if found.len() != 1 {
                    out.lost.push(format!("{} (found {} times)", f.key, found.len()));
                    continue;
                }
                by_impl.entry(found[0]).or_default().push(f);
            }
        }
    }

    for (i, fs) in &by_impl {
        used_impl.insert(*i);
        emit_impl(&specs, &idx, &base, &mut out, *i, fs, &impl_extra, smoke);
    }

    out.text.push_str("\n//@end\n} // verus!\nfn main() {}\n");
    std::fs::write(arg("--out").expect("--out"), &out.text).expect("write");
    let mut rep = String::from("{\n \"lost\": [");
    rep.push_str(&out.lost.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
    rep.push_str("],\n \"soft\": [");
    rep.push_str(&out.soft.iter().map(|(a, b)| format!("[{}, {}]", json(a), json(b))).collect::<Vec<_>>().join(", "));
    rep.push_str("],\n \"functions\": [\n");
    rep.push_str(&out.fns.join(",\n"));
    rep.push_str("\n ],\n \"rewrites\": {");
    rep.push_str(
        &out.counts
            .iter()
            .map(|(k, v)| format!("{}: {v}", json(k)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    rep.push_str("}\n}\n");
    std::fs::write(arg("--report").expect("--report"), rep).expect("write");
    for (_, s) in &out.soft {
        eprintln!("vx: lost: {s}");
    }
    if !out.lost.is_empty() {
        eprintln!("vx: undecidable here: {}", out.lost.join("; "));
        std::process::exit(3);
    }
}

/// `<A as B>::f` / `A::f` -> (impl key, method)
fn split_key(k: &str) -> Option<(String, String)> {
    let p = k.rfind("::")?;
    Some((k[..p].to_string(), k[p + 2..].to_string()))
}

fn parse_impl_key(k: &str) -> (String, Option<String>) {
    if let Some(x) = k.strip_prefix('<').and_then(|x| x.strip_suffix('>')) {
        if let Some((a, b)) = x.split_once(" as ") {
            return (a.trim().to_string(), Some(b.trim().to_string()));
        }
    }
    (k.to_string(), None)
}

fn emit_type(idx: &Index, base: &Ctx, out: &mut Out, name: &str, rename: Option<&str>, derive: &str, attrs: &str) {
    let mut ctx = base.clone();
    let ts = if let Some(s) = idx.structs.get(name) {
        let mut s = s.clone();
        Rules(&mut ctx).visit_item_struct_mut(&mut s);
        make_pub(&mut s.vis);
        if let Some(n) = rename { s.ident = format_ident!("{}", n); }
        for f in s.fields.iter_mut() {
            make_pub(&mut f.vis);
        }
        quote!(#s)
    } else if let Some(s) = idx.enums.get(name) {
        let mut s = s.clone();
        Rules(&mut ctx).visit_item_enum_mut(&mut s);
        if let Some(n) = rename { s.ident = format_ident!("{}", n); }
        make_pub(&mut s.vis);
        quote!(#s)
    } else {
        out.lost.push(format!("type {name}"));
        return;
    };
    if !derive.is_empty() {
        out.text.push_str(&format!("#[derive({derive})]\n"));
    }
    out.text.push_str(attrs);
    out.text.push_str(&print::print(ts));
    for (k, v) in ctx.counts {
        *out.counts.entry(k).or_default() += v;
    }
}

/// The lemmas of another unit are taken as they are stated: that unit's own run proves them.
fn believed(t: &str) -> String {
    let mut r = String::new();
    let mut before = "";
    for l in t.lines() {
        let lemma = ["pub proof fn ", "proof fn ", "pub broadcast proof fn ", "broadcast proof fn "]
            .iter()
            .any(|x| l.starts_with(x));
        if lemma && !before.contains("external_body") && !before.contains("via_fn") {
            r.push_str("#[verifier::external_body]\n");
        }
        r.push_str(l);
        r.push('\n');
        before = l;
    }
    r
}

/// A flags type: the constants come from the source, the operations are the contract of the
/// bitflags crate (assumed).
fn emit_flags(idx: &Index, out: &mut Out, name: &str, ty: &str, _implicit: bool) {
    let mut consts: Vec<(String, String)> = vec![];
    for e in &idx.impls {
        if e.self_key == name && e.trait_key.is_none() {
            for it in &e.item.items {
                if let syn::ImplItem::Const(c) = it {
                    if let syn::Expr::Call(call) = &c.expr {
                        if let Some(a) = call.args.first() {
                            let v = quote!(#a).to_string();
                            let pair = (c.ident.to_string(), v);
                            if !consts.contains(&pair) {
                                consts.push(pair);
                            }
                        }
                    }
                }
            }
        }
    }
    if consts.is_empty() {
        out.lost.push(format!("flags {name}"));
        return;
    }
    let mut t = format!(
        "#[derive(Clone, Copy)]\npub struct {name} {{ pub bits: {ty} }}\nimpl {name} {{\n"
    );
    let mut all: u128 = 0;
    for (n, v) in &consts {
        let num = v.replace(['_', ' '], "");
        let num = num.trim_end_matches(ty);
        let val = if let Some(h) = num.strip_prefix("0x") {
            u128::from_str_radix(h, 16)
        } else if let Some(h) = num.strip_prefix("0b") {
            u128::from_str_radix(h, 2)
        } else {
            num.parse::<u128>()
        };
        match val {
            Ok(x) => {
                all |= x;
                t.push_str(&format!("pub const {n}: {name} = {name} {{ bits: {x}{ty} }};\n"));
            }
            Err(_) => {
                out.lost.push(format!("flag {name}::{n} = {v}"));
                return;
            }
        }
    }
    t.push_str(&format!(
        "pub open spec fn all_bits() -> {ty} {{ {all}{ty} }}
pub open spec fn has(&self, o: {name}) -> bool {{ self.bits & o.bits == o.bits }}
pub fn bits(&self) -> (r: {ty}) ensures r == self.bits {{ self.bits }}
pub fn empty() -> (r: {name}) ensures r.bits == 0 {{ {name} {{ bits: 0 }} }}
pub fn contains(&self, o: {name}) -> (r: bool) ensures r == self.has(o) {{ self.bits & o.bits == o.bits }}
pub fn from_bits(b: {ty}) -> (r: Option<{name}>) ensures r == (if b & !Self::all_bits() == 0 {{ Some({name} {{ bits: b }}) }} else {{ None }}) {{ if b & !{all}{ty} == 0 {{ Some({name} {{ bits: b }}) }} else {{ None }} }}
pub fn from_bits_truncate(b: {ty}) -> (r: {name}) ensures r.bits == b & Self::all_bits() {{ {name} {{ bits: b & {all}{ty} }} }}
pub fn insert(&mut self, o: {name}) ensures final(self).bits == old(self).bits | o.bits {{ self.bits = self.bits | o.bits; }}
pub fn remove(&mut self, o: {name}) ensures final(self).bits == old(self).bits & !o.bits {{ self.bits = self.bits & !o.bits; }}
}}\n"
    ));
    for (tr, f, op) in [("BitOr", "bitor", "|"), ("BitAnd", "bitand", "&")] {
        t.push_str(&format!(
            "impl vstd::std_specs::ops::{tr}SpecImpl for {name} {{
open spec fn obeys_{f}_spec() -> bool {{ true }}
open spec fn {f}_req(self, o: {name}) -> bool {{ true }}
open spec fn {f}_spec(self, o: {name}) -> {name} {{ {name} {{ bits: self.bits {op} o.bits }} }}
}}
impl core::ops::{tr} for {name} {{ type Output = {name}; fn {f}(self, o: {name}) -> {name} {{ {name} {{ bits: self.bits {op} o.bits }} }} }}
impl vstd::std_specs::ops::{tr}AssignSpecImpl for {name} {{
open spec fn obeys_{f}_assign_spec() -> bool {{ true }}
open spec fn {f}_assign_req(&self, o: {name}) -> bool {{ true }}
open spec fn {f}_assign_spec(&self, o: {name}) -> &{name} {{ &{name} {{ bits: self.bits {op} o.bits }} }}
}}
impl core::ops::{tr}Assign for {name} {{ fn {f}_assign(&mut self, o: {name}) {{ self.bits = self.bits {op} o.bits; }} }}\n"
        ));
    }
    out.text.push_str(&t);
}

fn emit_free(specs: &Specs, base: &Ctx, out: &mut Out, f: &FnSpec, item: &syn::ItemFn, smoke: bool) {
    let mut ctx = fn_ctx(specs, base, f, &f.key);
    let mut sig = item.sig.clone();
    let mut block = (*item.block).clone();
    let name = f.emit_as.clone().unwrap_or_else(|| sig.ident.to_string());
    sig.ident = format_ident!("{}", name);
    if let Some(t) = body(&mut ctx, out, f, &mut sig, &mut block, smoke, "pub ") {
        out.text.push_str(&t);
    }
}

fn unit_ctx(specs: &Specs, base: &Ctx, unit: &str) -> Ctx {
    let mut ctx = base.clone();
    for (u, a, b) in &specs.lpaths {
        if u == unit {
            ctx.path_rules.insert(0, (a.split("::").map(|s| s.to_string()).collect(), b.clone()));
        }
    }
    ctx
}

fn fn_ctx(specs: &Specs, base: &Ctx, f: &FnSpec, key: &str) -> Ctx {
    let mut ctx = unit_ctx(specs, base, &f.unit);
    ctx.map_option = f.opts.contains("map=option");
    ctx.string_add = f.opts.contains("string_add");
    ctx.refuses = f.opts.contains("refuses");
    for (n, t) in &f.params {
        ctx.param_ty.insert(n.clone(), syn::parse_str(t).expect("param type"));
    }
    // nested functions of this function that have their own contract
    for (_, e) in &specs.entries {
        if let Entry::Fn(g) = e {
            if let Some(n) = g.key.strip_prefix(&format!("{key}::")) {
                if !n.contains("::") {
                    ctx.rename_fns.insert(
                        n.to_string(),
                        g.emit_as.clone().unwrap_or_else(|| n.to_string()),
                    );
                }
            }
        }
    }
    ctx
}

/// Rewrites a function and returns its text with the contract attached.
fn body(
    ctx: &mut Ctx,
    out: &mut Out,
    f: &FnSpec,
    sig: &mut syn::Signature,
    block: &mut syn::Block,
    smoke: bool,
    vis: &str,
) -> Option<String> {
    let src_hash = hash(&normal(&quote!(#sig #block).to_string()));
    // textual rewrites first: they speak about the source text
    if !f.rw.is_empty() {
        let mut s = normal(&print::print(quote!(#sig #block)));
        for (a, b) in &f.rw {
            let pa = match a.parse::<proc_macro2::TokenStream>() {
                Ok(x) => normal(&print::print(x)),
                Err(e) => panic!("rw pattern {a}: {e}"),
            };
            let n = s.matches(&pa).count();
            if n == 0 {
                if std::env::var("VX_DEBUG").is_ok() { eprintln!("{pa}\n{s}"); }
                // the text is verified as it is; if that fails it proves nothing
                out.soft.push((f.key.clone(), format!("{}: rewrite anchor `{a}`", f.key)));
                continue;
            }
            s = s.replace(&pa, b);
            ctx.hit("function-specific textual substitution");
        }
        match syn::parse_str::<syn::ItemFn>(&s) {
            Ok(x) => {
                *sig = x.sig;
                *block = *x.block;
            }
            Err(_) => {
                out.lost.push(format!("{}: result of rewrite does not parse: {s}", f.key));
                return None;
            }
        }
    }
    signature(ctx, sig, block);
    {
        let mut r = Rules(ctx);
        r.visit_signature_mut(sig);
        r.visit_block_mut(block);
    }
    for (n, t, calls) in &f.ghosts {
        let n = format_ident!("{}", n);
        let t: syn::Type = syn::parse_str(t).expect("ghost type");
        sig.inputs.push(syn::parse_quote!(Tracked(#n): Tracked<#t>));
        rules::Ghosts { name: &n, calls }.visit_block_mut(block);
        ctx.hit("ghost parameter (erased by the compiler)");
    }
    if let Some(r) = &f.ret {
        let t: syn::Type = syn::parse_str(r).expect("ret type");
        sig.output = syn::parse_quote!(-> #t);
    }
    if !ctx.errors.is_empty() {
        out.lost.push(format!("{}: {}", f.key, ctx.errors.join(", ")));
        return None;
    }
    // markers
    let mut names: Vec<String> = vec![];
    let wanted_ats: HashSet<String> = f.ats.keys().cloned().collect();
    let wanted = move |s: &str| wanted_ats.contains(s);
    let loops;
    {
        let mut namer = |n: String| {
            names.push(n);
            names.len() - 1
        };
        let entry_n = namer("fn".into());
        let mut mk = Markers {
            loops: 0,
            names: &mut namer,
            lets: HashMap::new(),
            wanted: &wanted,
        };
        mk.visit_block_mut(block);
        loops = mk.loops;
        let mut stmts: Vec<syn::Stmt> = vec![];
        let l = proc_macro2::Literal::usize_unsuffixed(entry_n);
        stmts.push(syn::parse_quote!(__vx_mark!(#l);));
        if f.ats.contains_key("at entry") {
            let n = namer("at entry".into());
            let l = proc_macro2::Literal::usize_unsuffixed(n);
            stmts.push(syn::parse_quote!(__vx_mark!(#l);));
        }
        let tail = match block.stmts.last() {
            Some(syn::Stmt::Expr(_, None)) => block.stmts.pop(),
            _ => None,
        };
        stmts.append(&mut block.stmts);
        if f.ats.contains_key("at tail") {
            let n = namer("at tail".into());
            let l = proc_macro2::Literal::usize_unsuffixed(n);
            stmts.push(syn::parse_quote!(__vx_mark!(#l);));
        }
        stmts.extend(tail);
        block.stmts = stmts;
    }
    // verified in the run of its own unit, used here by contract
    let elsewhere = !f.assume && only().is_some_and(|o| !o.contains(&f.unit));
    let assumed = f.assume || elsewhere;
    if !assumed && loops != f.loops.len() {
        out.soft.push((f.key.clone(), format!("{}: {} loops in the source, {} under contract", f.key, loops, f.loops.len())));
    }
    for a in f.ats.keys() {
        if !assumed && !names.contains(a) {
            if f.opts.contains("soft") { continue; }
            out.soft.push((f.key.clone(), format!("{}: anchor `{a}`", f.key)));
        }
    }
    // return value gets a name
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let t = t.clone();
        if !matches!(&*t, syn::Type::Never(_)) {
            let v: syn::Type = syn::Type::Verbatim(quote!((r: #t)));
            sig.output = syn::ReturnType::Type(Default::default(), Box::new(v));
        }
    }
    // `where` clauses stay in front of the contract
    let mut text = if assumed {
        let m: syn::Block = syn::parse_quote!({ __vx_mark!(0); unimplemented!() });
        print::print(quote!(#sig #m))
    } else {
        print::print(quote!(#sig #block))
    };
    for (n, name) in names.iter().enumerate() {
        if assumed && n > 0 {
            break;
        }
        if name == "fn" {
            place(&mut text, n, &f.contract, true);
            if smoke && !assumed {
                // reachability of the precondition
                let p = text.find(f.contract.as_str()).unwrap_or(0) + f.contract.len();
                if let Some(b) = text[p..].find('{') {
                    text.insert_str(p + b + 1, "\nassert(false); //@smoke\n");
                }
            }
        } else if let Some(k) = name.strip_prefix("loop ") {
            let k: usize = k.parse().unwrap();
            let inv = f.loops.get(&k).cloned().unwrap_or_default();
            place(&mut text, n, &inv, true);
        } else {
            place(&mut text, n, &f.ats[name], false);
        }
    }
    let mut head = format!("\n//@fn {}\n", f.key);
    if !assumed {
        head.push_str(&f.attrs);
    }
    if elsewhere {
        head.push_str(&format!("#[verifier::external_body] //@proved in unit {}\n", f.unit));
    } else if f.assume {
        head.push_str("#[verifier::external_body]\n");
    }
    head.push_str(vis);
    text = text.replacen("extern \"Rust\"", "", 1);
    out.fns.push(format!(
        "  {{\"key\": {}, \"unit\": {}, \"trusted\": {}, \"elsewhere\": {}, \"loops\": {}, \"source_hash\": {}, \"rewrites\": [{}]}}",
        json(&f.key),
        json(&f.unit),
        f.assume,
        elsewhere,
        loops,
        json(&src_hash),
        ctx.counts.keys().map(|k| json(k)).collect::<Vec<_>>().join(", ")
    ));
    for (k, v) in &ctx.counts {
        *out.counts.entry(k.clone()).or_default() += v;
    }
    Some(format!("{head}{text}\n//@endfn\n"))
}

#[allow(clippy::too_many_arguments)]
fn emit_impl(
    specs: &Specs,
    idx: &Index,
    base: &Ctx,
    out: &mut Out,
    i: usize,
    fs: &[&FnSpec],
    extra: &HashMap<String, String>,
    smoke: bool,
) {
    let e = &idx.impls[i];
    let mut ictx = base.clone();
    let mut im = e.item.clone();
    for c in &e.consts {
        if let Some(v) = const_value(&c.expr) {
            ictx.const_subst.insert(c.ident.to_string(), v);
        }
    }
    for it in &im.items {
        if let syn::ImplItem::Const(c) = it {
            if let Some(v) = const_value(&c.expr) {
                if c.ident != "SIZE" {
                    let ty = ty_key(&c.ty);
                    let v = match &v {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.suffix().is_empty() => {
                            let l: syn::LitInt = syn::parse_str(&format!("{i}{ty}")).expect("literal");
                            syn::parse_quote!(#l)
                        }
                        _ => v,
                    };
                    ictx.const_subst.insert(format!("Self::{}", c.ident), v);
                }
            }
        }
    }
    let inherent: Vec<&&FnSpec> = fs.iter().filter(|f| f.emit_as.is_some()).collect();
    let native: Vec<&&FnSpec> = fs.iter().filter(|f| f.emit_as.is_none()).collect();
    let items: Vec<syn::ImplItem> = im.items.drain(..).collect();
    let mut assoc: HashMap<String, syn::Type> = HashMap::new();
    for it in &items {
        if let syn::ImplItem::Type(t) = it {
            let mut t = t.clone();
            let mut c = ictx.clone();
            Rules(&mut c).visit_impl_item_type_mut(&mut t);
            assoc.insert(t.ident.to_string(), t.ty.clone());
        }
    }
    {
        let mut r = Rules(&mut ictx);
        r.visit_item_impl_mut(&mut im);
    }
    im.attrs.clear();
    im.unsafety = None;
    let get = |name: &str| -> Option<syn::ImplItemFn> {
        items.iter().find_map(|it| match it {
            syn::ImplItem::Fn(x) if x.sig.ident == name => Some(x.clone()),
            _ => None,
        })
    };
    let (g, _, w) = {
        let (a, b, c) = im.generics.split_for_impl();
        (quote!(#a), quote!(#b), quote!(#c))
    };
    let self_ty = im.self_ty.clone();
    let is_trait = im.trait_.is_some();
    // parameters that only the trait mentions go to the function when it is emitted as an inherent one
    let self_text = quote!(#self_ty).to_string();
    let moved: Vec<syn::GenericParam> = e
        .item
        .generics
        .params
        .iter()
        .filter(|p| match p {
            syn::GenericParam::Type(t) => !self_text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| t.ident == x),
            _ => false,
        })
        .cloned()
        .collect();
    let moved_where = e.item.generics.where_clause.clone();

    for (list, inh) in [(&native, false), (&inherent, true)] {
        if list.is_empty() {
            continue;
        }
        let mut text = String::new();
        let mut free_text = String::new();
        for f in list.iter() {
            let method = f.key.rsplit("::").next().unwrap();
            let Some(m) = get(method) else {
                out.lost.push(f.key.clone());
                continue;
            };
            let mut ctx = fn_ctx(specs, base, f, &f.key);
            ctx.const_subst = ictx.const_subst.clone();
            if inh {
                ctx.assoc = assoc.clone();
            }
            let mut sig = m.sig.clone();
            if let Some(n) = &f.emit_as {
                sig.ident = format_ident!("{}", n);
            }
            if inh && is_trait && !moved.is_empty() {
                for p in &moved {
                    sig.generics.params.push(p.clone());
                }
                if let Some(w) = &f.bounds {
                    let w: syn::WhereClause = syn::parse_str(&format!("where {w}")).expect("bounds");
                    sig.generics.make_where_clause().predicates.extend(w.predicates);
                } else if let Some(w) = &moved_where {
                    sig.generics.make_where_clause().predicates.extend(w.predicates.clone());
                }
            }
            let mut block = m.block.clone();
            let vis = if is_trait && !inh { "" } else { "pub " };
            if let Some(t) = body(&mut ctx, out, f, &mut sig, &mut block, smoke, vis) {
                if f.free {
                    free_text.push_str(&t);
                } else if let (Some(w), true, false) = (&f.bounds, inh, is_trait && !moved.is_empty()) {
                    free_text.push_str(&format!("{} where {w} {{\n{t}}}\n", print::print(quote!(impl #g #self_ty)).trim_end()));
                } else {
                    text.push_str(&t);
                }
            }
        }
        out.text.push_str(&free_text);
        if text.is_empty() {
            continue;
        }
        if inh && is_trait && !moved.is_empty() {
            out.text.push_str(&format!("{} {{\n", print::print(quote!(impl #self_ty)).trim_end()));
        } else if inh || !is_trait {
            out.text.push_str(&format!(
                "{} {{\n",
                print::print(quote!(impl #g #self_ty #w)).trim_end()
            ));
        } else {
            let tr = &im.trait_.as_ref().unwrap().1;
            out.text.push_str(&format!(
                "{} {{\n",
                print::print(quote!(impl #g #tr for #self_ty #w)).trim_end()
            ));
            for it in &items {
                match it {
                    syn::ImplItem::Type(t) => {
                        let mut t = t.clone();
                        let mut c = ictx.clone();
                        Rules(&mut c).visit_impl_item_type_mut(&mut t);
                        out.text.push_str(&print::print(quote!(#t)));
                    }
                    syn::ImplItem::Const(t) => {
                        let mut t = t.clone();
                        let mut c = ictx.clone();
                        Rules(&mut c).visit_impl_item_const_mut(&mut t);
                        if t.ident == "SIZE" {
                            let (ty, ex) = (&t.ty, &t.expr);
                            let ty = print::print(quote!(#ty));
                            let ex = print::print(quote!(#ex));
                            out.text.push_str(&format!(
                                "open spec fn spec_size() -> {ty} {{ {} }}\nfn vx_size() -> (r: {ty}) {{ {ex} }}\n",
                                ex.replace("vx_size", "spec_size")
                            ));
                        } else {
                            out.text.push_str(&print::print(quote!(#t)));
                        }
                    }
                    _ => {}
                }
            }
            let key = format!("<{} as {}>", e.self_key, e.trait_key.clone().unwrap_or_default());
            let key2 = format!(
                "<{} as {}>",
                short(&e.self_key),
                short(&e.trait_key.clone().unwrap_or_default())
            );
            if let Some(x) = extra.get(&key).or_else(|| extra.get(&key2)) {
                out.text.push_str(x);
            }
        }
        out.text.push_str(&text);
        out.text.push_str("}\n");
    }
}
