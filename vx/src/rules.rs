//! The mechanical rewrites applied to extracted functions. Each application is counted by name and
//! reported, so that the evidence states exactly what separates the verified text from the source.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

#[derive(Default, Clone)]
pub struct Ctx {
    pub counts: BTreeMap<String, usize>,
    pub errors: Vec<String>,
    pub path_rules: Vec<(Vec<String>, String)>,
    pub ty_rules: HashMap<String, String>,
    /// nested fn name -> emitted name
    pub rename_fns: HashMap<String, String>,
    /// named constant -> replacement expression
    pub const_subst: HashMap<String, Expr>,
    /// byte string constants of the crate
    pub byte_consts: Vec<String>,
    /// `Self::X` -> type, used when a trait method is emitted as inherent method
    pub assoc: HashMap<String, syn::Type>,
    pub map_option: bool,
    pub string_add: bool,
    pub refuses: bool,
    pub param_ty: HashMap<String, syn::Type>,
    pub fresh: usize,
    /// loop variables bound to references
    pub refs: Vec<String>,
}

impl Ctx {
    pub fn hit(&mut self, rule: &str) {
        *self.counts.entry(rule.to_string()).or_default() += 1;
    }
    /// `match S { P if G => A, rest }` -> `{ let s = S; match s { P => if G { A } else { match s { rest } }, rest } }`
    /// for guards that only read fields of `self`.
    fn inner_guard(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        fn pure(e: &Expr) -> bool {
            match e {
                Expr::Paren(x) => pure(&x.expr),
                Expr::Unary(x) => pure(&x.expr),
                Expr::Binary(x) => pure(&x.left) && pure(&x.right),
                Expr::Lit(_) => true,
                Expr::Field(x) => {
                    let mut b = &*x.base;
                    while let Expr::Field(y) = b {
                        b = &y.base;
                    }
                    matches!(b, Expr::Path(p) if p.path.is_ident("self"))
                }
                _ => false,
            }
        }
        if !matches!(peel(&m.expr), Expr::MethodCall(_) | Expr::Call(_)) {
            return None;
        }
        let k = m.arms.iter().position(|a| matches!(&a.guard, Some((_, g)) if pure(g)))?;
        self.hit("match guard on fields of self -> if within the arm");
        let s = self.fresh("s");
        let x = &m.expr;
        let before = &m.arms[..k];
        let pat = &m.arms[k].pat;
        let g = &m.arms[k].guard.as_ref().unwrap().1;
        let body = &m.arms[k].body;
        let rest = &m.arms[k + 1..];
        Some(parse_quote!({ let #s = #x; match #s { #(#before)* #pat => { if #g { #body } else { match #s { #(#rest)* } } } #(#rest)* } }))
    }

    fn fresh(&mut self, base: &str) -> syn::Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", base, self.fresh)
    }
    fn err(&mut self, s: impl Into<String>) {
        self.errors.push(s.into());
    }
}

const PRIMS: &[(&str, usize)] = &[
    ("u8", 1),
    ("i8", 1),
    ("u16", 2),
    ("i16", 2),
    ("u32", 4),
    ("i32", 4),
    ("f32", 4),
    ("u64", 8),
    ("i64", 8),
    ("f64", 8),
    ("u128", 16),
    ("i128", 16),
    ("usize", 8),
];

const OPTION_METHODS: &[&str] = &[
    "position",
    "first",
    "last",
    "get",
    "get_mut",
    "ok",
    "as_ref",
    "as_mut",
    "as_deref",
    "strip_prefix",
    "strip_suffix",
    "pop",
    "find",
    "from_bits",
    "checked_add",
    "checked_sub",
    "checked_mul",
    "state_str",
];

/// Constant arithmetic over integer literals and `X::BITS`.
fn const_int(e: &Expr) -> Option<u128> {
    match peel(e) {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Path(p) => {
            let k = full_path(e)?;
            let (a, b) = k.rsplit_once("::")?;
            let _ = p;
            if b != "BITS" {
                return None;
            }
            Some(8 * PRIMS.iter().find(|x| x.0 == a)?.1 as u128)
        }
        Expr::Cast(c) => const_int(&c.expr),
        Expr::Binary(b) => {
            let (l, r) = (const_int(&b.left)?, const_int(&b.right)?);
            match b.op {
                syn::BinOp::Add(_) => l.checked_add(r),
                syn::BinOp::Sub(_) => l.checked_sub(r),
                syn::BinOp::Mul(_) => l.checked_mul(r),
                syn::BinOp::Div(_) => l.checked_div(r),
                _ => None,
            }
        }
        _ => None,
    }
}

/// `std::mem::size_of::<T>()` of a primitive type, or a plain literal.
pub fn const_value(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Lit(l) => Some(Expr::Lit(l.clone())),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let last = p.path.segments.last()?;
                if last.ident == "size_of" {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                            let k = crate::index::ty_key(t);
                            let n = PRIMS.iter().find(|x| x.0 == k)?.1;
                            let lit = proc_macro2::Literal::usize_suffixed(n);
                            return Some(parse_quote!(#lit));
                        }
                    }
                }
            }
            None
        }
        Expr::Cast(c) => {
            let n = const_int(e)?;
            let lit = proc_macro2::Literal::u128_unsuffixed(n);
            let ty = &c.ty;
            let t: syn::LitInt = syn::parse_str(&format!("{lit}{}", crate::index::ty_key(ty))).ok()?;
            Some(parse_quote!(#t))
        }
        _ => None,
    }
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}

fn byte_str(e: &Expr) -> Option<(Vec<u8>, bool)> {
    match peel(e) {
        Expr::Lit(syn::ExprLit {
            lit: syn::Lit::ByteStr(b),
            ..
        }) => Some((b.value(), false)),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
            byte_str(&u.expr).map(|(v, _)| (v, true))
        }
        Expr::Reference(r) => match &*r.expr {
            Expr::Array(a) => a
                .elems
                .iter()
                .map(|x| match x {
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if i.suffix() == "u8" => i.base10_parse::<u8>().ok(),
                    _ => None,
                })
                .collect::<Option<Vec<u8>>>()
                .map(|v| (v, false)),
            _ => None,
        },
        _ => None,
    }
}

fn byte_array(v: &[u8]) -> Expr {
    let lits = v.iter().map(|b| proc_macro2::Literal::u8_suffixed(*b));
    parse_quote!(&[#(#lits),*])
}

fn path_last(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        _ => None,
    }
}

fn full_path(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => Some(
            p.path
                .segments
                .iter()
                .map(|s| s.ident.to_string())
                .collect::<Vec<_>>()
                .join("::"),
        ),
        _ => None,
    }
}

struct HasEscape(bool);
impl<'ast> Visit<'ast> for HasEscape {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true;
    }
}
fn has_escape(e: &Expr) -> bool {
    let mut v = HasEscape(false);
    v.visit_expr(e);
    v.0
}

struct HasContinue(bool);
impl<'ast> Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
}

/// Applies a function-like argument of `map`-style adapters to an expression.
fn apply(ctx: &mut Ctx, f: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
    match peel(f) {
        Expr::Closure(c) => {
            if c.inputs.len() != n {
                return None;
            }
            if has_escape(&c.body) {
                ctx.err("closure with control flow cannot be inlined");
                return None;
            }
            let pats = c
                .inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect();
            Some((pats, (*c.body).clone()))
        }
        Expr::Path(_) => {
            let mut pats = vec![];
            let mut args: Vec<Expr> = vec![];
            for _ in 0..n {
                let id = ctx.fresh("a");
                pats.push(parse_quote!(#id));
                args.push(parse_quote!(#id));
            }
            let f = peel(f).clone();
            if let Some(p) = full_path(&f) {
                if n == 1 {
                    let a = &args[0];
                    if p == "Into::into" || p == "From::from" {
                        return Some((pats, parse_quote!((#a).into())));
                    }
                }
            }
            Some((pats, parse_quote!(#f(#(#args),*))))
        }
        _ => None,
    }
}

fn is_option(ctx: &Ctx, e: &Expr) -> bool {
    if ctx.map_option {
        return true;
    }
    match peel(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if OPTION_METHODS.contains(&n.as_str()) {
                return true;
            }
            if ["map", "cloned", "copied"].contains(&n.as_str()) {
                return is_option(ctx, &m.receiver);
            }
            false
        }
        Expr::Call(c) => match path_last(&c.func) {
            Some(n) => n == "Some" || n == "scramble_native" || n == "scramble_sha256",
            None => false,
        },
        // a desugared Option adapter
        Expr::Match(m) => m.arms.iter().any(|a| {
            let p = &a.pat;
            let s = quote!(#p).to_string();
            s.starts_with("Some") || s.starts_with("None") || s.contains(":: Some")
        }),
        _ => false,
    }
}

pub struct Rules<'a>(pub &'a mut Ctx);

impl<'a> Rules<'a> {
    fn method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let ctx = &mut *self.0;
        let name = m.method.to_string();
        let recv = &m.receiver;
        let arg = m.args.first();
        match (name.as_str(), m.args.len()) {
            ("pow", 1) if matches!(&**recv, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.to_string() == "10u32")) => {
                ctx.hit("10u32.pow(n) -> vx_pow10(n)");
                Some(parse_quote!(vx_pow10(#arg)))
            }
            ("map", 1) => {
                let opt = is_option(ctx, recv);
                let (p, body) = apply(ctx, arg?, 1)?;
                let p = &p[0];
                ctx.hit("adapter .map(f) on Option/Result -> match");
                Some(if opt {
                    parse_quote!(match #recv { Some(#p) => Some(#body), None => None })
                } else {
                    let e = ctx.fresh("e");
                    parse_quote!(match #recv { Ok(#p) => Ok(#body), Err(#e) => Err(#e) })
                })
            }
            ("and_then", 1) => {
                let opt = is_option(ctx, recv);
                let (p, body) = apply(ctx, arg?, 1)?;
                let p = &p[0];
                ctx.hit("adapter .and_then(f) on Option/Result -> match");
                Some(if opt {
                    parse_quote!(match #recv { Some(#p) => #body, None => None })
                } else {
                    let e = ctx.fresh("e");
                    parse_quote!(match #recv { Ok(#p) => #body, Err(#e) => Err(#e) })
                })
            }
            ("map_err", 1) => {
                let (p, body) = apply(ctx, arg?, 1)?;
                let p = &p[0];
                ctx.hit("adapter .map_err(f) -> match");
                let v = ctx.fresh("v");
                Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#body) }))
            }
            ("ok_or_else", 1) => {
                let (_, body) = apply(ctx, arg?, 0)?;
                ctx.hit("adapter .ok_or_else(f) -> match");
                let v = ctx.fresh("v");
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#body) }))
            }
            ("unwrap_or_else", 1) => {
                let opt = is_option(ctx, recv);
                let v = ctx.fresh("v");
                if opt {
                    let (_, body) = apply(ctx, arg?, 0)?;
                    ctx.hit("adapter .unwrap_or_else(f) -> match");
                    Some(parse_quote!(match #recv { Some(#v) => #v, None => #body }))
                } else {
                    None
                }
            }
            ("is_some_and", 1) => {
                let (p, body) = apply(ctx, arg?, 1)?;
                let p = &p[0];
                ctx.hit("adapter .is_some_and(f) -> match");
                Some(parse_quote!(match #recv { Some(#p) => #body, None => false }))
            }
            ("as_mut", 0) => {
                ctx.hit(".as_mut() -> contracted wrapper");
                Some(parse_quote!(#recv.vx_as_mut()))
            }
            ("set_len" | "shrink_to", 1) => {
                ctx.hit(".set_len(n), .shrink_to(n) -> contracted wrapper");
                let f = format_ident!("vx_{}", name);
                Some(parse_quote!(#recv.#f(#arg)))
            }
            ("copy_from_slice" | "split_at_mut", 1) => {
                let Expr::Index(ix) = peel(recv) else { return None };
                if !matches!(peel(&ix.index), Expr::Range(_)) {
                    return None;
                }
                if matches!(peel(&ix.expr), Expr::MethodCall(m) if m.method == "vx_slice_mut") {
                    return None;
                }
                let (x, r, name, args) = (&ix.expr, &ix.index, &m.method, &m.args);
                ctx.hit("x[range].f(..) -> x as mutable slice, [range].f(..)");
                Some(parse_quote!(#x.vx_slice_mut()[#r].#name(#args)))
            }
            ("chunks", 1) => {
                let a = &m.args[0];
                ctx.hit(".chunks(n) -> contracted wrapper");
                Some(parse_quote!(vx_chunks(#recv, #a)))
            }
            ("to_le_bytes", 0) => {
                ctx.hit("to_le_bytes/from_le_bytes -> contracted wrapper");
                Some(parse_quote!((#recv).vx_to_le_bytes()))
            }
            ("to_be_bytes", 0) => {
                ctx.hit("to_le_bytes/from_le_bytes -> contracted wrapper");
                Some(parse_quote!((#recv).vx_to_be_bytes()))
            }
            ("write_fmt", 1) => {
                if let Expr::Macro(mac) = peel(arg?) {
                    if mac.mac.path.is_ident("format_args") {
                        return self.format(recv.clone(), mac.mac.tokens.clone());
                    }
                }
                None
            }
            ("contains", 1) => {
                // (A..=B).contains(&x)
                if let (Expr::Range(r), Some(Expr::Reference(x))) = (peel(recv), arg) {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let x = &x.expr;
                        ctx.hit("(a..=b).contains(&x) -> comparisons");
                        return Some(match r.limits {
                            syn::RangeLimits::Closed(_) => parse_quote!(#a <= #x && #x <= #b),
                            syn::RangeLimits::HalfOpen(_) => parse_quote!(#a <= #x && #x < #b),
                        });
                    }
                }
                None
            }
            ("collect", 0) => {
                // X.iter().filter(|x| !LIT.contains(x)).cloned().collect()
                let Expr::MethodCall(cl) = peel(recv) else { return None };
                let Expr::MethodCall(fi) = peel(&cl.receiver) else { return None };
                let Expr::MethodCall(it) = peel(&fi.receiver) else { return None };
                if !(cl.method == "cloned" || cl.method == "copied") || fi.method != "filter" || it.method != "iter" {
                    return None;
                }
                let Some(Expr::Closure(c)) = fi.args.first() else { return None };
                let p = c.inputs.first()?;
                let (neg, test) = match peel(&c.body) {
                    Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (true, peel(&u.expr).clone()),
                    x => (false, x.clone()),
                };
                let Expr::MethodCall(t) = &test else { return None };
                if t.method != "contains" || t.args.len() != 1 || quote!(#p).to_string() != t.args[0].to_token_stream().to_string() {
                    return None;
                }
                let (v, _) = byte_str(&t.receiver)?;
                let lit = byte_array(&v);
                let src = &it.receiver;
                ctx.hit("iter().filter(|x| bytes.contains(x)).cloned().collect() -> contracted wrapper");
                Some(if neg { parse_quote!(vx_filter_out(&#src, #lit)) } else { parse_quote!(vx_filter_in(&#src, #lit)) })
            }
            ("sum", 0) => {
                // X.iter().map(|p| e).sum::<T>()
                let Expr::MethodCall(ma) = peel(recv) else { return None };
                let Expr::MethodCall(it) = peel(&ma.receiver) else { return None };
                if ma.method != "map" || it.method != "iter" || !it.args.is_empty() {
                    return None;
                }
                let ty = match m.turbofish.as_ref()?.args.first()? {
                    syn::GenericArgument::Type(t) => t.clone(),
                    _ => return None,
                };
                let Some(Expr::Closure(c)) = ma.args.first() else { return None };
                let (src, body) = (&it.receiver, &c.body);
                let (acc, x) = (ctx.fresh("a"), ctx.fresh("x"));
                let bind = fields(c.inputs.first()?, &x)?;
                ctx.hit("iter().map(f).sum() -> loop");
                Some(parse_quote!({ let mut #acc: #ty = 0; for #x in #src.iter() { #(#bind)* #acc = #acc + (#body); } #acc }))
            }
            ("position", 1) => {
                // X.iter().position(|x| *x == LIT)
                if let (Expr::MethodCall(it), Some(Expr::Closure(c))) = (peel(recv), arg) {
                    if it.method == "iter" && c.inputs.len() == 1 {
                        let p = &c.inputs[0];
                        if let Expr::Binary(b) = peel(&c.body) {
                            let l = peel(&b.left);
                            let l = quote!(#l).to_string();
                            let r = &b.right;
                            if matches!(b.op, syn::BinOp::Eq(_)) && l == format!("* {}", quote!(#p))
                            {
                                let src = &it.receiver;
                                ctx.hit("iter().position(|x| *x == c) -> contracted wrapper");
                                return Some(parse_quote!(vx_position(&#src, #r)));
                            }
                        }
                        if let Pat::Ident(_) = &c.inputs[0] {
                            let (src, p, body) = (&it.receiver, &c.inputs[0], &c.body);
                            ctx.hit("s.iter().position(|x| c) -> loop");
                            return Some(parse_quote!({
                                let vx_s = &#src;
                                let mut vx_r: Option<usize> = None;
                                for vx_i in 0..vx_s.len() {
                                    let #p = &vx_s[vx_i];
                                    if #body {
                                        vx_r = Some(vx_i);
                                        break;
                                    }
                                }
                                vx_r
                            }));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// The pieces of a `format_args!`: text between the arguments, and arguments with their format spec.
    fn pieces(&mut self, toks: TokenStream) -> Option<Vec<(String, Option<Expr>)>> {
        use syn::parse::Parser;
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let args = parser.parse2(toks).ok()?;
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(syn::ExprLit {
                lit: syn::Lit::Str(s),
                ..
            }) => s.value(),
            _ => return None,
        };
        let args: Vec<Expr> = it.collect();
        let mut parts = vec![];
        let mut text = String::new();
        let mut cs = lit.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    text.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    text.push('}');
                }
                '{' => {
                    if !text.is_empty() {
                        parts.push((std::mem::take(&mut text), None));
                    }
                    let mut spec = String::new();
                    for c in cs.by_ref() {
                        if c == '}' {
                            break;
                        }
                        spec.push(c);
                    }
                    let (n, fm) = match spec.split_once(':') {
                        Some((n, f)) => (n.to_string(), f.to_string()),
                        None => (spec.clone(), String::new()),
                    };
                    let i: usize = n.parse().ok()?;
                    parts.push((fm, Some(args.get(i)?.clone())));
                }
                c => text.push(c),
            }
        }
        if !text.is_empty() {
            parts.push((text, None));
        }
        Some(parts)
    }

    /// `f.write_fmt(format_args!(..))` -> a chain of write calls, one per piece.
    fn format(&mut self, f: Box<Expr>, toks: TokenStream) -> Option<Expr> {
        let pieces = self.pieces(toks)?;
        self.0.hit("write!(f, ..) -> one contracted write per piece");
        let mut parts: Vec<Expr> = vec![];
        for (t, a) in pieces {
            match a {
                None => parts.push(parse_quote!(#f.write_str(#t))),
                Some(a) if t.is_empty() => parts.push(parse_quote!(#f.vx_display(&#a))),
                Some(a) => {
                    if let Some(w) = t.strip_prefix("0>").and_then(|x| x.parse::<usize>().ok()) {
                        let w = proc_macro2::Literal::usize_suffixed(w);
                        parts.push(parse_quote!(#f.vx_display_pad0(&#a, #w)));
                    } else {
                        self.0.err(format!("format spec {t}"));
                        return None;
                    }
                }
            }
        }
        let last = parts.pop()?;
        let mut e: Expr = last;
        for p in parts.into_iter().rev() {
            let v = self.0.fresh("e");
            e = parse_quote!(match #p { Ok(_) => #e, Err(#v) => Err(#v) });
        }
        Some(e)
    }

    /// `format!(..)` (expanded) -> a text put together piece by piece.
    fn format_text(&mut self, c: &syn::ExprCall) -> Option<Expr> {
        if path_last(&c.func)? != "must_use" || c.args.len() != 1 {
            return None;
        }
        let Expr::Block(b) = peel(&c.args[0]) else { return None };
        let [Stmt::Expr(Expr::Call(f), None)] = &b.block.stmts[..] else { return None };
        if !full_path(&f.func)?.ends_with("fmt::format") {
            return None;
        }
        let Expr::Macro(mac) = peel(f.args.first()?) else { return None };
        let pieces = self.pieces(mac.mac.tokens.clone())?;
        let t = self.0.fresh("t");
        let mut out: Vec<Stmt> = vec![];
        for (x, a) in pieces {
            match a {
                None => out.push(parse_quote!(#t.lit(#x);)),
                Some(a) if x.is_empty() => out.push(parse_quote!(#t.show(&#a);)),
                Some(_) => {
                    self.0.err(format!("format spec {x}"));
                    return None;
                }
            }
        }
        self.0.hit("format!(..) -> a text put together piece by piece");
        Some(parse_quote!({ let mut #t = VxText::new(); #(#out)* #t.done() }))
    }

    /// Matches on slice patterns or byte string constants.
    fn match_bytes(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        let is_bytes_pat = |p: &Pat, consts: &[String]| match p {
            Pat::Slice(_) => true,
            Pat::Lit(l) => matches!(l.lit, syn::Lit::ByteStr(_) | syn::Lit::Str(_)),
            Pat::Path(p) => consts.contains(&p.path.segments.last().unwrap().ident.to_string()),
            Pat::Ident(p) => p.subpat.is_none() && consts.contains(&p.ident.to_string()),
            _ => false,
        };
        if !m.arms.iter().any(|a| is_bytes_pat(&a.pat, &self.0.byte_consts)) {
            return None;
        }
        self.0.hit("match on slice pattern -> length and element tests");
        let s = self.0.fresh("m");
        let scrut = &m.expr;
        let mut chain: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            if arm.guard.is_some() {
                self.0.err("guard on slice pattern");
                return None;
            }
            let body = &arm.body;
            let (cond, binds): (Option<Expr>, Vec<Stmt>) = match &arm.pat {
                Pat::Wild(_) => (None, vec![]),
                Pat::Ident(p) if !self.0.byte_consts.contains(&p.ident.to_string()) => {
                    let id = &p.ident;
                    (None, vec![parse_quote!(let #id = #s;)])
                }
                Pat::Ident(p) => {
                    let id = &p.ident;
                    (Some(parse_quote!(vx_bytes_eq(#s, #id))), vec![])
                }
                Pat::Path(p) => {
                    let p = &p.path;
                    (Some(parse_quote!(vx_bytes_eq(#s, #p))), vec![])
                }
                Pat::Lit(l) => match &l.lit {
                    syn::Lit::ByteStr(b) => {
                        let a = byte_array(&b.value());
                        (Some(parse_quote!(vx_bytes_eq(#s, #a))), vec![])
                    }
                    syn::Lit::Str(b) => (Some(parse_quote!(#s == #b)), vec![]),
                    _ => return None,
                },
                Pat::Slice(sl) => {
                    let elems: Vec<&Pat> = sl.elems.iter().collect();
                    let rest = elems.iter().position(|p| match p {
                        Pat::Rest(_) => true,
                        Pat::Ident(i) => matches!(
                            i.subpat.as_ref().map(|x| &*x.1),
                            Some(Pat::Rest(_))
                        ),
                        _ => false,
                    });
                    let n = elems.len() - rest.is_some() as usize;
                    let mut conds: Vec<Expr> = vec![if rest.is_some() {
                        parse_quote!(#s.len() >= #n)
                    } else {
                        parse_quote!(#s.len() == #n)
                    }];
                    let mut binds = vec![];
                    for (i, p) in elems.iter().enumerate() {
                        let at: Expr = match rest {
                            Some(r) if i > r => {
                                let back = elems.len() - i;
                                parse_quote!(#s[#s.len() - #back])
                            }
                            _ => parse_quote!(#s[#i]),
                        };
                        if Some(i) == rest {
                            if let Pat::Ident(id) = p {
                                let id = &id.ident;
                                let after = elems.len() - i - 1;
                                binds.push(parse_quote!(let #id = vx_subslice(#s, #i, #s.len() - #after);));
                            }
                            continue;
                        }
                        match p {
                            Pat::Lit(l) => conds.push(parse_quote!(#at == #l)),
                            Pat::Ident(id) if id.subpat.is_none() => {
                                let id = &id.ident;
                                binds.push(parse_quote!(let #id = &#at;));
                            }
                            Pat::Wild(_) => {}
                            _ => {
                                self.0.err("slice pattern element");
                                return None;
                            }
                        }
                    }
                    let mut c = conds.remove(0);
                    for x in conds {
                        c = parse_quote!(#c && #x);
                    }
                    (Some(c), binds)
                }
                _ => {
                    self.0.err("mixed slice pattern");
                    return None;
                }
            };
            let block: Expr = parse_quote!({ #(#binds)* #body });
            chain = Some(match (cond, chain) {
                (None, _) => block,
                (Some(c), Some(e)) => parse_quote!(if #c #block else { #e }),
                (Some(_), None) => {
                    self.0.err("slice match without fallback");
                    return None;
                }
            });
        }
        let e = chain?;
        Some(parse_quote!({ let #s = #scrut; #e }))
    }

    fn ptr_read(&mut self, u: &syn::ExprUnary) -> Option<Expr> {
        // *(E as *const _ as *const [T; N])
        if !matches!(u.op, syn::UnOp::Deref(_)) {
            return None;
        }
        if let Expr::Cast(c) = peel(&u.expr) {
            if let syn::Type::Ptr(p) = &*c.ty {
                if let syn::Type::Array(a) = &*p.elem {
                    if let Expr::Cast(c2) = peel(&c.expr) {
                        if matches!(&*c2.ty, syn::Type::Ptr(_)) {
                            let src = &c2.expr;
                            let len = &a.len;
                            self.0
                                .hit("unsafe array read through pointer cast -> wrapper requiring len >= N");
                            return Some(parse_quote!(vx_read_array::<{ #len }>(#src)));
                        }
                    }
                }
            }
        }
        None
    }
}

fn strip_path(p: &mut syn::Path) -> usize {
    let first = match p.segments.first() {
        Some(f) => f.ident.to_string(),
        None => return 0,
    };
    if !["crate", "super", "self"].contains(&first.as_str()) || p.segments.len() < 2 {
        return 0;
    }
    let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
    let mut i = 0;
    while i + 1 < segs.len() && segs[i].ident.to_string().starts_with(|c: char| c.is_lowercase()) {
        i += 1;
    }
    p.leading_colon = None;
    p.segments = segs[i..].iter().cloned().collect();
    i
}

impl<'a> VisitMut for Rules<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        let s = i.to_string();
        if let Some(x) = s.strip_prefix("r#") {
            *i = format_ident!("vx_{}", x);
            self.0.hit("raw identifier renamed");
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if crate::index::path_key(p, false) == "AsRef<[u8]>" {
            *p = parse_quote!(VxBytes);
            self.0.hit("bound AsRef<[u8]> -> contracted trait");
        }
        if crate::index::path_key(p, false) == "AsMut<[u8]>" {
            *p = parse_quote!(VxBytesMut);
            self.0.hit("bound AsMut<[u8]> -> contracted trait");
        }
        {
            let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if !self.0.path_rules.iter().any(|(from, _)| {
                full.len() >= from.len() && full[..from.len()] == from[..]
            }) {
                strip_path(p);
            }
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        // longest matching prefix rule
        let mut best: Option<(usize, String)> = None;
        for (from, to) in &self.0.path_rules {
            if segs.len() >= from.len() && segs[..from.len()] == from[..] {
                if best.as_ref().map_or(true, |b| from.len() > b.0) {
                    best = Some((from.len(), to.clone()));
                }
            }
        }
        if let Some((n, to)) = best {
            let mut new: syn::Path = syn::parse_str(&to).expect("path rule");
            let old: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
            // keep generic arguments of the last replaced segment
            if let Some(l) = new.segments.last_mut() {
                if l.arguments.is_empty() {
                    l.arguments = old[n - 1].arguments.clone();
                }
            }
            for s in &old[n..] {
                new.segments.push(s.clone());
            }
            *p = new;
            self.0.hit("paths flattened or mapped to contracted stand-ins");
        }
        if p.segments.len() == 1 {
            let id = p.segments[0].ident.to_string();
            if let Some(n) = self.0.rename_fns.get(&id) {
                p.segments[0].ident = format_ident!("{}", n);
            }
        }
    }

    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        if let Some(q) = &mut e.qself {
            let n = strip_path(&mut e.path);
            q.position -= n;
            self.visit_type_mut(&mut q.ty);
            for s in e.path.segments.iter_mut() {
                self.visit_path_arguments_mut(&mut s.arguments);
            }
            return;
        }
        visit_mut::visit_expr_path_mut(self, e);
        let seg: Vec<String> = e.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if seg.len() >= 2 && seg[0] == "Self" {
            if let Some(syn::Type::Path(t)) = self.0.assoc.get(&seg[1]) {
                let mut p = t.path.clone();
                for s in e.path.segments.iter().skip(2) {
                    p.segments.push(s.clone());
                }
                e.path = p;
                self.0.hit("associated type of an inherent method -> its type");
            }
        }
    }

    fn visit_type_path_mut(&mut self, e: &mut syn::TypePath) {
        if let Some(q) = &mut e.qself {
            let n = strip_path(&mut e.path);
            q.position -= n;
        }
        visit_mut::visit_type_path_mut(self, e);
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        let key = quote!(#t).to_string().replace(' ', "");
        if let Some(r) = self.0.ty_rules.get(&key) {
            *t = syn::parse_str(r).expect("type rule");
            self.0.hit("types mapped to contracted stand-ins");
            return;
        }
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some(ty) = self.0.assoc.get(&n) {
                    *t = ty.clone();
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites
        if let Expr::Reference(r) = &*e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = peel(&r.expr) {
                    if let Expr::Range(rg) = peel(&ix.index) {
                        if let (Some(a), None) = (&rg.start, &rg.end) {
                            let x = &ix.expr;
                            self.0.hit("&mut v[a..] -> contracted wrapper");
                            *e = parse_quote!(#x.vx_tail_mut(#a));
                        }
                    }
                }
            }
        }
        match e {
            Expr::Async(a) => {
                let b = &a.block;
                self.0.hit("async block -> block");
                *e = parse_quote!(#b);
            }
            Expr::MethodCall(m) => {
                // receivers of adapters are classified before they are rewritten
                if let Some(n) = self.method(&m.clone()) {
                    *e = parse_quote!((#n));
                }
            }
            Expr::ForLoop(f) => {
                if let (Expr::MethodCall(m), Pat::Ident(_)) = (peel(&f.expr), &*f.pat) {
                    if m.method == "iter_mut" && m.args.is_empty() {
                        let (src, p, body, label) = (&m.receiver, &f.pat, &f.body.stmts, &f.label);
                        let idx = self.0.fresh("i");
                        self.0.hit("for x in s.iter_mut() -> index loop");
                        let end = self.0.fresh("n");
                        *e = parse_quote!({ let #end = #src.len(); #label for #idx in 0..#end { let #p = &mut #src[#idx]; #(#body)* } });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                if let (Expr::Path(x), Pat::Tuple(_)) = (peel(&f.expr), &*f.pat) {
                    let (body, label) = (&f.body.stmts, &f.label);
                    let v = self.0.fresh("x");
                    if let Some(bind) = fields(&f.pat, &v) {
                        self.0.hit("for (a, b) in pairs -> for p in pairs.iter()");
                        *e = parse_quote!(#label for #v in #x.iter() { #(#bind)* #(#body)* });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                } else if let Some(n) = self.zip(&f.clone()) {
                    *e = n;
                } else if let Some(n) = self.enumerate(&f.clone()) {
                    *e = n;
                }
            }
            Expr::Call(c) if full_path(&c.func).unwrap_or_default().contains("panicking::") => c.args.clear(),
            Expr::Call(c) if path_last(&c.func).as_deref() == Some("box_assume_init_into_vec_unsafe") => {
                // vec![..]
                if let Some(Expr::Call(w)) = c.args.first().map(peel) {
                    if let Some(Expr::Array(a)) = w.args.iter().nth(1).map(peel) {
                        self.0.hit("vec![..] -> new vector, one push per element");
                        let xs = a.elems.iter();
                        let v = self.0.fresh("v");
                        *e = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#xs);)* #v });
                    }
                }
            }
            Expr::Call(c) => {
                if let Some(n) = self.format_text(&c.clone()) {
                    *e = n;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        match e {
            Expr::Await(a) => {
                let b = &a.base;
                self.0.hit("async erased (.await -> direct call)");
                *e = (**b).clone();
            }
            Expr::Unary(u) => {
                if let Some(n) = self.ptr_read(&u.clone()) {
                    *e = n;
                }
            }
            Expr::Unsafe(u) => {
                // `unsafe { E }` blocks whose content is a contracted wrapper
                let b = &u.block;
                self.0.hit("unsafe block -> block");
                *e = parse_quote!(#b);
            }
            Expr::Match(m) => {
                if let Some(n) = self.match_bytes(&m.clone()) {
                    *e = n;
                } else if let Some(n) = self.0.inner_guard(&m.clone()) {
                    *e = n;
                }
            }
            Expr::Call(c) => {
                let name = full_path(&c.func).unwrap_or_default();
                let last = path_last(&c.func).unwrap_or_default();
                if name.contains("panicking::") || last == "unimplemented" {
                    if self.0.refuses {
                        self.0.hit("deliberate panic -> vx_refuse()");
                        *e = parse_quote!(vx_refuse());
                    } else {
                        self.0.hit("panic -> vx_panic() (requires false)");
                        *e = parse_quote!(vx_panic());
                    }
                } else if ["from_le_bytes", "from_be_bytes"].contains(&last.as_str()) {
                    if let Expr::Path(p) = &*c.func {
                        let ty = match &p.qself {
                            Some(q) => crate::index::ty_key(&q.ty),
                            None => p.path.segments[0].ident.to_string(),
                        };
                        let f = format_ident!("vx_{}_{}", ty, last);
                        let args = &c.args;
                        self.0.hit("to_le_bytes/from_le_bytes -> contracted wrapper");
                        *e = parse_quote!(#f(#args));
                    }
                } else if name == "alloc::vec::from_elem" {
                    let args = &c.args;
                    *e = parse_quote!(vx_from_elem(#args));
                    self.0.hit("vec![x; n] -> contracted wrapper");
                }
            }
            Expr::Binary(b) => {
                let eq = matches!(b.op, syn::BinOp::Eq(_));
                let ne = matches!(b.op, syn::BinOp::Ne(_));
                if eq || ne {
                    let pair = if let Some(x) = byte_str(&b.right) {
                        Some((x, (*b.left).clone()))
                    } else {
                        byte_str(&b.left).map(|x| (x, (*b.right).clone()))
                    };
                    if let Some(((v, deref), other)) = pair {
                        let a = byte_array(&v);
                        self.0.hit("byte string comparison -> contracted wrapper");
                        let other: Expr = if deref { parse_quote!(&#other) } else { other };
                        *e = if eq {
                            parse_quote!(vx_bytes_eq(#other, #a))
                        } else {
                            parse_quote!(!vx_bytes_eq(#other, #a))
                        };
                        return;
                    }
                }
                if matches!(b.op, syn::BinOp::BitXorAssign(_)) {
                    let (l, r) = (&b.left, &b.right);
                    let by_ref = path_last(r).map_or(false, |x| self.0.refs.contains(&x));
                    let r: Expr = if by_ref { parse_quote!(*#r) } else { parse_quote!(#r) };
                    self.0.hit("a ^= b -> a = a ^ b");
                    *e = parse_quote!(#l = #l ^ #r);
                    return;
                }
                if self.0.string_add && matches!(b.op, syn::BinOp::Add(_)) {
                    fn stringy(e: &Expr) -> bool {
                        match peel(e) {
                            Expr::MethodCall(m) => m.method == "to_owned" || m.method == "to_string" || m.method == "into",
                            Expr::Call(c) => matches!(peel(&c.func), Expr::Path(p) if p.path.is_ident("vx_str_add") || p.path.is_ident("vx_text")) || full_path(&c.func).map_or(false, |x| x == "String::from"),
                            Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_)) && stringy(&b.left),
                            _ => false,
                        }
                    }
                    if stringy(&b.left) {
                        let (l, r) = (&b.left, &b.right);
                        self.0.hit("String + &str -> contracted wrapper");
                        *e = parse_quote!(vx_str_add(#l, #r));
                        return;
                    }
                }
                if matches!(b.op, syn::BinOp::AddAssign(_)) {
                    let is_str = matches!(peel(&b.right), Expr::Lit(syn::ExprLit{lit: syn::Lit::Str(_), ..}));
                    if is_str || self.0.string_add {
                        let (l, r) = (&b.left, &b.right);
                        self.0.hit("String += s -> push_str(s)");
                        *e = parse_quote!((#l).push_str(#r));
                    }
                }
            }
            Expr::Lit(l) => {
                if let syn::Lit::ByteStr(b) = &l.lit {
                    self.0.hit("byte string literal -> byte array");
                    *e = byte_array(&b.value());
                }
            }
            Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.last().unwrap().ident == "SIZE" => {
                p.path.segments.last_mut().unwrap().ident = format_ident!("vx_size");
                let p = p.clone();
                self.0.hit("associated constant SIZE -> fn vx_size()");
                *e = parse_quote!(#p());
            }
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self"
                && self.0.const_subst.contains_key(&format!("Self::{}", p.path.segments[1].ident)) =>
            {
                let v = self.0.const_subst[&format!("Self::{}", p.path.segments[1].ident)].clone();
                self.0.hit("associated constant inlined");
                *e = v;
            }
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() == 1 {
                    let id = p.path.segments[0].ident.to_string();
                    if let Some(v) = self.0.const_subst.get(&id) {
                        *e = v.clone();
                        self.0.hit("local constant inlined");
                    }
                }
            }
            Expr::Macro(m) => {
                let s = m.mac.path.segments.last().unwrap().ident.to_string();
                self.0.err(format!("macro {s}! is not understood"));
            }
            _ => {}
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // nested functions are emitted on their own, simple local constants are inlined
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(syn::Item::Fn(_)) => self.0.hit("nested fn hoisted"),
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(syn::Item::Const(c)) => {
                    if let Some(v) = const_value(&c.expr) {
                        self.0.const_subst.insert(c.ident.to_string(), v);
                    } else {
                        let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                        keep.push(parse_quote!(let #id: #ty = #ex;));
                    }
                }
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
}

/// Bindings of a pattern to (the fields of) the reference `x`.
fn fields(p: &Pat, x: &syn::Ident) -> Option<Vec<Stmt>> {
    match p {
        Pat::Tuple(t) => {
            let mut out = vec![];
            for (i, p) in t.elems.iter().enumerate() {
                let i = syn::Index::from(i);
                match p {
                    Pat::Ident(n) if n.subpat.is_none() && n.by_ref.is_none() => out.push(parse_quote!(let #n = &#x.#i;)),
                    Pat::Wild(_) => {}
                    _ => return None,
                }
            }
            Some(out)
        }
        Pat::Ident(n) if n.subpat.is_none() && n.by_ref.is_none() => Some(vec![parse_quote!(let #n = #x;)]),
        _ => None,
    }
}

impl<'a> Rules<'a> {
    /// `for (a, b) in X.iter_mut().zip(Y.iter())`
    fn zip(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let m = match peel(&f.expr) {
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => m,
            _ => return None,
        };
        let (pa, pb) = match &*f.pat {
            Pat::Tuple(t) if t.elems.len() == 2 => (&t.elems[0], &t.elems[1]),
            _ => return None,
        };
        let side = |e: &Expr| -> Option<(Expr, bool)> {
            match peel(e) {
                Expr::MethodCall(x) if x.args.is_empty() && x.method == "iter" => Some(((*x.receiver).clone(), false)),
                Expr::MethodCall(x) if x.args.is_empty() && x.method == "iter_mut" => Some(((*x.receiver).clone(), true)),
                _ => None,
            }
        };
        let (a, b) = (side(&m.receiver)?, side(&m.args[0])?);
        let is_call = |e: &Expr| matches!(peel(e), Expr::MethodCall(_) | Expr::Call(_));
        let place = |x: &(Expr, bool)| -> Expr {
            let e = &x.0;
            match (x.1, is_call(e)) {
                (_, true) => parse_quote!(#e),
                (true, _) => parse_quote!(&mut #e),
                (false, _) => parse_quote!(&#e),
            }
        };
        let (xa, xb) = (place(&a), place(&b));
        let (ia, ib) = (self.0.fresh("s"), self.0.fresh("s"));
        let idx = self.0.fresh("i");
        let end = self.0.fresh("n");
        let bind = |p: &Pat, x: &(Expr, bool), v: &syn::Ident| -> Stmt {
            if x.1 {
                parse_quote!(let #p = &mut #v[#idx];)
            } else {
                parse_quote!(let #p = &#v[#idx];)
            }
        };
        for (p, x) in [(pa, &a), (pb, &b)] {
            if let (Pat::Ident(i), false) = (p, x.1) {
                self.0.refs.push(i.ident.to_string());
            }
        }
        let (ba, bb) = (bind(pa, &a, &ia), bind(pb, &b, &ib));
        let body = &f.body.stmts;
        let label = &f.label;
        self.0.hit("for (a, b) in x.iter_mut().zip(y.iter()) -> index loop");
        Some(parse_quote!({
            let #ia = #xa;
            let #ib = #xb;
            let #end = vx_min(#ia.len(), #ib.len());
            #label for #idx in 0..#end { #bb #ba #(#body)* }
        }))
    }

    fn enumerate(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let m = match peel(&f.expr) {
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => m,
            _ => return None,
        };
        let (pi, pv) = match &*f.pat {
            Pat::Tuple(t) if t.elems.len() == 2 => (&t.elems[0], &t.elems[1]),
            _ => return None,
        };
        let idx = match pi {
            Pat::Ident(i) => i.ident.clone(),
            Pat::Wild(_) => self.0.fresh("i"),
            _ => return None,
        };
        let inner = match peel(&m.receiver) {
            Expr::MethodCall(x) => x,
            _ => {
                self.0.err("enumerate over an unknown iterator");
                return None;
            }
        };
        let src = &inner.receiver;
        let body = &f.body.stmts;
        let label = &f.label;
        match inner.method.to_string().as_str() {
            "iter" => {
                self.0.hit("for (i, x) in s.iter().enumerate() -> index loop");
                let bind: Stmt = if let Pat::Wild(_) = pv {
                    parse_quote!({})
                } else {
                    parse_quote!(let #pv = &vx_s[#idx];)
                };
                Some(parse_quote!({
                    let vx_s = &#src;
                    #label for #idx in 0..vx_s.len() { #bind #(#body)* }
                }))
            }
            "iter_mut" => {
                self.0.hit("for (i, x) in s.iter_mut().enumerate() -> index loop");
                Some(parse_quote!({
                    #label for #idx in 0..#src.len() { let #pv = &mut #src[#idx]; #(#body)* }
                }))
            }
            "chars" => {
                let mut c = HasContinue(false);
                for s in body {
                    c.visit_stmt(s);
                }
                if c.0 {
                    self.0.err("continue inside enumerate over chars");
                    return None;
                }
                self.0.hit("for (i, c) in s.chars().enumerate() -> counter loop");
                let cnt = self.0.fresh("n");
                Some(parse_quote!({
                    let mut #cnt: usize = 0;
                    #label for #pv in #src.chars() {
                        let #idx = #cnt;
                        #(#body)*
                        #cnt = vx_count(#cnt);
                    }
                }))
            }
            other => {
                self.0.err(format!("enumerate over .{other}()"));
                None
            }
        }
    }
}

/// Hands a ghost parameter on to the calls that want it.
pub struct Ghosts<'a> {
    pub name: &'a syn::Ident,
    pub calls: &'a [String],
}

impl VisitMut for Ghosts<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = self.name;
        match e {
            Expr::MethodCall(m) if self.calls.iter().any(|c| m.method == c) => m.args.push(parse_quote!(Tracked(#n))),
            Expr::Call(c) => {
                let whole = { let f = &c.func; quote!(#f).to_string().replace(' ', "") };
                if self.calls.contains(&whole) {
                    c.args.push(parse_quote!(Tracked(#n)));
                }
            }
            _ => {}
        }
    }
}

/// Signature rewrites: no async, no mutable or destructured parameters.
pub fn signature(ctx: &mut Ctx, sig: &mut syn::Signature, block: &mut syn::Block) {
    if sig.asyncness.take().is_some() {
        ctx.hit("async erased (async fn -> fn)");
    }
    sig.constness = None;
    sig.unsafety = None;
    let mut pre: Vec<Stmt> = vec![];
    let mut rename_self = false;
    for arg in sig.inputs.iter_mut() {
        match arg {
            syn::FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
                    r.mutability = None;
                    *r = parse_quote!(self);
                    pre.push(parse_quote!(let mut vx_self = self;));
                    rename_self = true;
                }
            }
            syn::FnArg::Typed(t) => {
                t.attrs.clear();
                match &mut *t.pat {
                    Pat::Ident(i) => {
                        if let Some(ty) = ctx.param_ty.get(&i.ident.to_string()) {
                            *t.ty = ty.clone();
                            ctx.hit("parameter type made concrete");
                        }
                        if i.mutability.is_some() {
                            i.mutability = None;
                            let id = &i.ident;
                            pre.push(parse_quote!(let mut #id = #id;));
                            ctx.hit("mut parameter -> local");
                        }
                    }
                    Pat::Wild(_) => {
                        let id = ctx.fresh("unused");
                        *t.pat = parse_quote!(#id);
                    }
                    p => {
                        let id = ctx.fresh("arg");
                        let q = p.clone();
                        pre.push(parse_quote!(let #q = #id;));
                        *t.pat = parse_quote!(#id);
                        ctx.hit("destructured parameter -> let");
                    }
                }
            }
        }
    }
    if rename_self {
        struct R;
        impl VisitMut for R {
            fn visit_path_mut(&mut self, p: &mut syn::Path) {
                visit_mut::visit_path_mut(self, p);
                if p.is_ident("self") {
                    *p = parse_quote!(vx_self);
                }
            }
        }
        R.visit_block_mut(block);
        ctx.hit("mut self -> local");
    }
    pre.extend(block.stmts.drain(..));
    block.stmts = pre;
}

// ---------------------------------------------------------------------------------------------
// markers

pub struct Markers<'a> {
    pub loops: usize,
    pub names: &'a mut dyn FnMut(String) -> usize,
    pub lets: HashMap<String, usize>,
    pub wanted: &'a dyn Fn(&str) -> bool,
}

fn mark(n: usize) -> Stmt {
    let l = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(__vx_mark!(#l);)
}

struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        visit_method(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let Some(p) = path_last(&c.func) {
            self.0.push(p);
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_block(&mut self, _: &'ast syn::Block) {}
}
fn visit_method(v: &mut Calls, m: &syn::ExprMethodCall) {
    v.0.push(m.method.to_string());
    syn::visit::visit_expr_method_call(v, m);
}

impl<'a> Markers<'a> {
    fn m(&mut self, name: String) -> Option<Stmt> {
        if (self.wanted)(&name) {
            let n = (self.names)(name);
            Some(mark(n))
        } else {
            None
        }
    }

    fn do_loop(&mut self, e: &mut Expr, id: usize) {
        let (body, label): (&mut syn::Block, String) = match e {
            Expr::While(w) => (&mut w.body, "while".into()),
            Expr::Loop(w) => (&mut w.body, "loop".into()),
            Expr::ForLoop(w) => {
                let ex = &w.expr;
                let it = format_ident!("it{}", id);
                let t = quote!(#it : #ex);
                w.expr = Box::new(Expr::Verbatim(t));
                (&mut w.body, "for".into())
            }
            _ => return,
        };
        let _ = label;
        self.visit_block_mut(body);
        let mut stmts = vec![];
        let n = (self.names)(format!("loop {id}"));
        stmts.push(mark(n));
        if let Some(s) = self.m(format!("at loop {id} start")) {
            stmts.push(s);
        }
        stmts.append(&mut body.stmts);
        if let Some(s) = self.m(format!("at loop {id} end")) {
            stmts.push(s);
        }
        body.stmts = stmts;
    }
}

impl<'a> VisitMut for Markers<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                let id = self.loops;
                self.loops += 1;
                self.do_loop(e, id);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts: Vec<Stmt> = b.stmts.drain(..).collect();
        let mut out = vec![];
        for mut s in stmts {
            let mut after = vec![];
            // names of calls made directly by this statement
            let mut calls = Calls(vec![]);
            match &s {
                Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) => {}
                s => calls.visit_stmt(s),
            }
            let calls = calls.0;
            for c in &calls {
                let k = format!("call {c}");
                let n = self.lets.entry(k.clone()).or_default();
                let key = if *n == 0 { k.clone() } else { format!("{k}#{n}") };
                *n += 1;
                if let Some(m) = self.m(format!("at before {key}")) {
                    out.push(m);
                }
                if let Some(m) = self.m(format!("at after {key}")) {
                    after.push(m);
                }
            }
            if let Stmt::Local(l) = &s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                if let Pat::Ident(i) = p {
                    let k = format!("let {}", i.ident);
                    let n = self.lets.entry(k.clone()).or_default();
                    let key = if *n == 0 { k.clone() } else { format!("{k}#{n}") };
                    *n += 1;
                    if let Some(m) = self.m(format!("at {key}")) {
                        after.push(m);
                    }
                }
            }
            let loop_id = match &s {
                Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) => {
                    let id = self.loops;
                    Some(id)
                }
                _ => None,
            };
            if let Some(id) = loop_id {
                if let Some(m) = self.m(format!("at loop {id} before")) {
                    out.push(m);
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if let Some(id) = loop_id {
                if let Some(m) = self.m(format!("at loop {id} after")) {
                    out.push(m);
                }
            }
            out.extend(after);
        }
        b.stmts = out;
    }
}
