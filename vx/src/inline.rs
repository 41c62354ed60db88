//! Functions that the pinned crate did not have (helpers extracted by a later change) have no contract.
//! Calls of them are replaced by their bodies, so that the callers' contracts still decide; a function
//! that was merely renamed gets its old name back. What cannot be inlined faithfully is left alone, and
//! then the verifier does not know it ("undecided").
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Stmt};

#[derive(Clone)]
pub struct Helper {
    key: String,
    sig: syn::Signature,
    block: syn::Block,
    self_ty: Option<syn::Type>,
    is_trait: bool,
}

fn ty_text(t: &syn::Type) -> String {
    quote!(#t).to_string().replace(' ', "")
}

/// Types of a signature, without the names.
fn shape(sig: &syn::Signature) -> String {
    let ins: Vec<String> = sig
        .inputs
        .iter()
        .map(|a| match a {
            syn::FnArg::Receiver(r) => quote!(#r).to_string().replace(' ', "").replace("mutself", "self"),
            syn::FnArg::Typed(p) => ty_text(&p.ty),
        })
        .collect();
    let out = &sig.output;
    format!("{}{}|{}", if sig.asyncness.is_some() { "async " } else { "" }, ins.join(","), quote!(#out).to_string().replace(' ', ""))
}

#[derive(Default)]
struct Collect {
    me: Option<syn::Type>,
    is_trait: bool,
    outer: Vec<String>,
    found: Vec<Helper>,
}

impl Collect {
    fn add(&mut self, sig: &syn::Signature, block: &syn::Block, nested: bool) {
        let mut k = match (&self.me, nested) {
            (Some(t), _) => super::index::ty_key(t),
            _ => String::new(),
        };
        if self.is_trait {
            k = format!("<{k}>");
        }
        for o in &self.outer {
            k = format!("{k}::{o}");
        }
        self.found.push(Helper {
            key: format!("{k}::{}", sig.ident),
            sig: sig.clone(),
            block: block.clone(),
            self_ty: if nested { None } else { self.me.clone() },
            is_trait: self.is_trait && !nested,
        });
    }
}

impl<'a> Visit<'a> for Collect {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let old = (self.me.take(), self.is_trait, std::mem::take(&mut self.outer));
        self.me = Some((*i.self_ty).clone());
        self.is_trait = i.trait_.is_some();
        visit::visit_item_impl(self, i);
        self.me = old.0;
        self.is_trait = old.1;
        self.outer = old.2;
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.add(&f.sig, &f.block, false);
        self.outer.push(f.sig.ident.to_string());
        visit::visit_impl_item_fn(self, f);
        self.outer.pop();
    }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        let nested = !self.outer.is_empty();
        self.add(&f.sig, &f.block, nested);
        self.outer.push(f.sig.ident.to_string());
        visit::visit_item_fn(self, f);
        self.outer.pop();
    }
    fn visit_item_trait(&mut self, t: &'a syn::ItemTrait) {
        let id = &t.ident;
        let old = (self.me.replace(syn::parse_quote!(#id)), self.is_trait);
        self.is_trait = true;
        visit::visit_item_trait(self, t);
        self.me = old.0;
        self.is_trait = old.1;
    }
    fn visit_trait_item_fn(&mut self, f: &'a syn::TraitItemFn) {
        let b = f.default.clone().unwrap_or(syn::parse_quote!({}));
        self.add(&f.sig, &b, false);
        visit::visit_trait_item_fn(self, f);
    }
}

fn collect(file: &syn::File) -> Vec<Helper> {
    let mut c = Collect::default();
    c.visit_file(file);
    c.found
}

/// One line per function: key, types. The list of the pinned crate is committed as specs/known.txt.
pub fn list(file: &syn::File) -> String {
    let mut l: Vec<String> = collect(file).iter().map(|h| format!("{}\t{}", h.key, shape(&h.sig))).collect();
    struct C(Vec<String>);
    impl<'a> Visit<'a> for C {
        fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
            self.0.push(format!("const {}", c.ident));
            visit::visit_item_const(self, c);
        }
    }
    let mut c = C(vec![]);
    c.visit_file(file);
    l.extend(c.0);
    l.sort();
    l.dedup();
    l.join("\n") + "\n"
}

struct Rename(HashMap<String, String>);
impl Rename {
    fn ident(&self, i: &mut syn::Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = syn::Ident::new(n, i.span());
        }
    }
}
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        self.ident(i)
    }
}

/// Expression paths only (not fields, methods or types); struct shorthands are expanded first.
struct Subst<'a>(&'a HashMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(x) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

struct SelfTy<'a>(&'a syn::Type);
impl VisitMut for SelfTy<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.first().is_some_and(|s| s.ident == "Self") {
            if let syn::Type::Path(t) = self.0 {
                let rest: Vec<_> = p.segments.iter().skip(1).cloned().collect();
                let mut n = t.path.clone();
                for s in n.segments.iter_mut() {
                    s.arguments = syn::PathArguments::None;
                }
                n.segments.extend(rest);
                *p = n;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

#[derive(Default)]
struct Facts {
    idents: HashSet<String>,
    bound: HashSet<String>,
    tries: bool,
    returns: bool,
    macro_self: bool,
}
impl<'a> Visit<'a> for Facts {
    fn visit_ident(&mut self, i: &'a syn::Ident) {
        self.idents.insert(i.to_string());
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.tries = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        self.returns = true;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        let old = (self.tries, self.returns);
        visit::visit_expr_closure(self, e);
        self.tries = old.0;
        self.returns = old.1;
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn toks(t: proc_macro2::TokenStream, f: &mut Facts) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        if i == "self" {
                            f.macro_self = true;
                        }
                        f.idents.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => toks(g.stream(), f),
                    _ => (),
                }
            }
        }
        toks(m.tokens.clone(), self);
    }
}

fn facts<T: ToTokens>(f: impl FnOnce(&mut Facts), _t: &T) -> Facts {
    let mut x = Facts::default();
    f(&mut x);
    x
}
fn block_facts(b: &syn::Block) -> Facts {
    facts(|x| x.visit_block(b), b)
}
fn expr_facts(e: &Expr) -> Facts {
    facts(|x| x.visit_expr(e), e)
}

/// Early `return`s at statement level become branches of the tail expression.
fn tailify(b: &mut syn::Block) {
    for i in 0..b.stmts.len() {
        let last = i + 1 == b.stmts.len();
        let take = match &b.stmts[i] {
            Stmt::Expr(Expr::If(x), _) => x.else_branch.is_none() && ends_in_return(&x.then_branch),
            _ => false,
        };
        if take {
            let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
            let Some(Stmt::Expr(Expr::If(mut x), _)) = b.stmts.pop() else { return };
            tailify(&mut x.then_branch);
            let mut r = syn::Block { brace_token: Default::default(), stmts: rest };
            tailify(&mut r);
            let (c, t) = (&x.cond, &x.then_branch);
            b.stmts.push(Stmt::Expr(syn::parse_quote!(if #c #t else #r), None));
            return;
        }
        if last {
            if let Stmt::Expr(e, semi) = &mut b.stmts[i] {
                if let Expr::Return(r) = e {
                    *e = r.expr.take().map(|x| *x).unwrap_or(syn::parse_quote!(()));
                    *semi = None;
                }
                if semi.is_none() {
                    tail_expr(e);
                }
            }
        }
    }
}

fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            let mut x = r.expr.take().map(|x| *x).unwrap_or(syn::parse_quote!(()));
            tail_expr(&mut x);
            *e = x;
        }
        Expr::Block(b) if b.label.is_none() => tailify(&mut b.block),
        Expr::If(x) => {
            if let Some((_, o)) = &mut x.else_branch {
                tailify(&mut x.then_branch);
                tail_expr(o);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_expr(&mut a.body);
            }
        }
        Expr::Paren(p) => tail_expr(&mut p.expr),
        _ => (),
    }
}

fn ends_in_return(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

/// Applies `f` to every expression in tail position.
fn leaves(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    match e {
        Expr::Block(b) if b.label.is_none() => block_leaves(&mut b.block, f),
        Expr::If(x) if x.else_branch.is_some() => {
            block_leaves(&mut x.then_branch, f);
            leaves(&mut x.else_branch.as_mut().unwrap().1, f);
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                leaves(&mut a.body, f);
            }
        }
        Expr::Paren(p) => leaves(&mut p.expr, f),
        _ => f(e),
    }
}
fn block_leaves(b: &mut syn::Block, f: &mut dyn FnMut(&mut Expr)) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        leaves(e, f);
    }
}

fn result_error(out: &syn::ReturnType) -> Option<String> {
    if let syn::ReturnType::Type(_, t) = out {
        if let syn::Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident == "Result" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if a.args.len() == 2 {
                        let x = &a.args[1];
                        return Some(quote!(#x).to_string().replace(' ', ""));
                    }
                }
            }
        }
    }
    None
}

fn call_arg<'a>(e: &'a Expr, name: &str) -> Option<&'a Expr> {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().is_some_and(|s| s.ident == name) && c.args.len() == 1 {
                return c.args.first();
            }
        }
    }
    None
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && place(&u.expr),
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Plain,
    Try,
    Tail,
}

pub struct Inliner {
    helpers: HashMap<String, Helper>,
    output: Vec<syn::ReturnType>,
    me: Option<syn::Type>,
    busy: Vec<String>,
    n: usize,
    pub done: BTreeMap<String, usize>,
}

impl Inliner {
    /// The call as a block, or nothing.
    fn expand(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        let (call, awaited) = match e {
            Expr::Await(a) => (&*a.base, true),
            x => (x, false),
        };
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match call {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            _ => return None,
        };
        let h = self.helpers.get(&name)?.clone();
        if self.busy.contains(&name) || h.sig.asyncness.is_some() != awaited {
            return None;
        }
        if h.sig.generics.type_params().next().is_some() && {
            let f = block_facts(&h.block);
            h.sig.generics.type_params().any(|t| f.idents.contains(&t.ident.to_string()))
        } {
            return None;
        }
        let mut inputs: Vec<syn::FnArg> = h.sig.inputs.iter().cloned().collect();
        let mut args = args;
        let mut recv = recv;
        let has_self = matches!(inputs.first(), Some(syn::FnArg::Receiver(_)));
        if has_self {
            inputs.remove(0);
            if recv.is_none() {
                // Type::helper(self, ..)
                if args.is_empty() {
                    return None;
                }
                let mut a = args.remove(0);
                if let Expr::Reference(r) = &a {
                    a = (*r.expr).clone();
                }
                recv = Some(a);
            }
        } else if recv.is_some() {
            return None;
        }
        if inputs.len() != args.len() {
            return None;
        }
        let mut block = h.block.clone();
        // nested items are looked up on their own
        block.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(_))));
        tailify(&mut block);
        let f = block_facts(&block);
        if let (Some(a), Some(b)) = (&h.self_ty, &self.me) {
            if super::index::short(&super::index::ty_key(a)) != super::index::short(&super::index::ty_key(b)) {
                SelfTy(a).visit_block_mut(&mut block);
            }
        } else if let Some(a) = &h.self_ty {
            SelfTy(a).visit_block_mut(&mut block);
        }
        if let Some(r) = &recv {
            let is_self = matches!(r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                if !place(r) || f.macro_self {
                    return None;
                }
                let rf = expr_facts(r);
                if rf.idents.iter().any(|i| f.bound.contains(i) || inputs.iter().any(|p| matches!(p, syn::FnArg::Typed(t) if matches!(&*t.pat, syn::Pat::Ident(q) if q.ident == i)))) {
                    return None;
                }
                let mut m = HashMap::new();
                m.insert("self".to_string(), r.clone());
                Subst(&m).visit_block_mut(&mut block);
            }
        }
        // arguments
        self.n += 1;
        let mut first: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        for (j, (p, a)) in inputs.iter().zip(&args).enumerate() {
            let syn::FnArg::Typed(t) = p else { return None };
            let syn::Pat::Ident(q) = &*t.pat else { return None };
            if q.by_ref.is_some() || q.subpat.is_some() {
                return None;
            }
            if q.mutability.is_none() && matches!(a, Expr::Path(x) if x.path.is_ident(&q.ident)) {
                continue;
            }
            let (id, m) = (&q.ident, &q.mutability);
            let mut ty = (*t.ty).clone();
            struct L(bool);
            impl VisitMut for L {
                fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
                    r.lifetime = None;
                    visit_mut::visit_type_reference_mut(self, r);
                }
                fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
                    *l = syn::parse_quote!('_);
                }
                fn visit_type_impl_trait_mut(&mut self, _: &mut syn::TypeImplTrait) {
                    self.0 = true;
                }
            }
            let mut l = L(h.sig.generics.type_params().next().is_some());
            l.visit_type_mut(&mut ty);
            if ty_text(&ty).contains("Self") {
                l.0 = true;
            }
            let ty = if l.0 { quote!() } else { quote!(: #ty) };
            let clash = args.iter().enumerate().any(|(k, x)| k > j && expr_facts(x).idents.contains(&id.to_string()))
                || recv.as_ref().is_some_and(|r| expr_facts(r).idents.contains(&id.to_string()));
            if clash {
                let tmp = format_ident!("vxh{}_{}", self.n, id);
                first.push(syn::parse_quote!(let #tmp #ty = #a;));
                second.push(syn::parse_quote!(let #m #id = #tmp;));
            } else {
                first.push(syn::parse_quote!(let #m #id #ty = #a;));
            }
        }
        // how it ends
        let escapes = f.tries || f.returns;
        let outer = self.output.last().cloned().unwrap_or(syn::ReturnType::Default);
        let mut made_try = false;
        if pos == Pos::Try {
            let same = result_error(&h.sig.output).is_some() && result_error(&h.sig.output) == result_error(&outer);
            if !same {
                return None;
            }
            // returns that are left must be errors
            struct OnlyErr(bool);
            impl<'a> Visit<'a> for OnlyErr {
                fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
                    if !r.expr.as_ref().is_some_and(|x| call_arg(x, "Err").is_some()) {
                        self.0 = false;
                    }
                }
                fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
            }
            let mut o = OnlyErr(true);
            o.visit_block(&block);
            if !o.0 {
                return None;
            }
            block_leaves(&mut block, &mut |x| {
                if let Some(v) = call_arg(x, "Ok") {
                    *x = v.clone();
                } else if call_arg(x, "Err").is_some() {
                    let y = x.clone();
                    *x = syn::parse_quote!(return #y);
                } else {
                    let y = x.clone();
                    *x = syn::parse_quote!((#y)?);
                }
            });
            made_try = true;
        } else if escapes {
            let same = {
                let (a, b) = (&h.sig.output, &outer);
                quote!(#a).to_string() == quote!(#b).to_string()
            };
            if pos != Pos::Tail || !same {
                return None;
            }
        }
        let _ = made_try;
        let mut stmts = first;
        stmts.append(&mut second);
        stmts.append(&mut block.stmts);
        *self.done.entry(h.key.clone()).or_default() += 1;
        let mut b: syn::Block = syn::Block { brace_token: Default::default(), stmts };
        // helpers of helpers
        self.busy.push(name);
        self.output.push(h.sig.output.clone());
        if pos != Pos::Plain {
            // early exits leave the caller now
            self.output.pop();
            self.output.push(outer);
        }
        self.block(&mut b, pos == Pos::Tail);
        self.output.pop();
        self.busy.pop();
        if b.stmts.len() == 1 {
            if let Some(Stmt::Expr(_, None)) = b.stmts.first() {
                let Some(Stmt::Expr(x, None)) = b.stmts.pop() else { return None };
                return Some(match x {
                    Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Struct(_) | Expr::Paren(_) | Expr::Macro(_) | Expr::Block(_) | Expr::Field(_) => x,
                    x => syn::parse_quote!((#x)),
                });
            }
        }
        Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
    }

    fn block(&mut self, b: &mut syn::Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if tail && i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.tail(e);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }

    fn tail(&mut self, e: &mut Expr) {
        if let Some(x) = self.expand(e, Pos::Tail) {
            *e = x;
            return;
        }
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block, true),
            Expr::If(x) if x.else_branch.is_some() => {
                self.visit_expr_mut(&mut x.cond);
                self.block(&mut x.then_branch, true);
                self.tail(&mut x.else_branch.as_mut().unwrap().1);
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            _ => self.visit_expr_mut(e),
        }
    }

    fn function(&mut self, sig: &syn::Signature, b: &mut syn::Block) {
        self.output.push(sig.output.clone());
        let name = sig.ident.to_string();
        self.busy.push(name);
        self.block(b, true);
        self.busy.pop();
        self.output.pop();
    }
}

impl VisitMut for Inliner {
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        let old = self.me.replace((*i.self_ty).clone());
        visit_mut::visit_item_impl_mut(self, i);
        self.me = old;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        let s = f.sig.clone();
        self.function(&s, &mut f.block);
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        let s = f.sig.clone();
        self.function(&s, &mut f.block);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        // early exits would leave the closure
        self.output.push(syn::ReturnType::Default);
        visit_mut::visit_expr_closure_mut(self, c);
        self.output.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                if let Some(x) = self.expand(&t.expr, Pos::Try) {
                    *e = x;
                    return;
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    if let Some(x) = self.expand(x, Pos::Tail) {
                        r.expr = Some(Box::new(x));
                        return;
                    }
                }
            }
            _ => {
                if let Some(x) = self.expand(e, Pos::Plain) {
                    *e = x;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `continue` at statement level of a `for` becomes an `else` (Verus' for loops have no `continue`).
struct Continues(usize);
impl Continues {
    fn block(&mut self, b: &mut syn::Block) {
        for i in 0..b.stmts.len() {
            let take = match &b.stmts[i] {
                Stmt::Expr(Expr::If(x), _) => x.else_branch.is_none() && matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()),
                _ => false,
            };
            if take {
                let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                let Some(Stmt::Expr(Expr::If(mut x), _)) = b.stmts.pop() else { return };
                x.then_branch.stmts.pop();
                let mut r = syn::Block { brace_token: Default::default(), stmts: rest };
                self.block(&mut x.then_branch);
                self.block(&mut r);
                if let Some(Stmt::Expr(_, semi @ None)) = r.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                let (c, t) = (&x.cond, &x.then_branch);
                self.0 += 1;
                b.stmts.push(if r.stmts.is_empty() {
                    Stmt::Expr(syn::parse_quote!(if #c #t), None)
                } else if t.stmts.is_empty() {
                    Stmt::Expr(syn::parse_quote!(if !(#c) #r), None)
                } else {
                    Stmt::Expr(syn::parse_quote!(if #c #t else #r), None)
                });
                return;
            }
        }
        if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
            match e {
                Expr::Continue(c) if c.label.is_none() => {
                    b.stmts.pop();
                    self.0 += 1;
                }
                Expr::If(x) => {
                    self.block(&mut x.then_branch);
                    let mut o = &mut x.else_branch;
                    while let Some((_, y)) = o {
                        match &mut **y {
                            Expr::If(z) => {
                                self.block(&mut z.then_branch);
                                o = &mut z.else_branch;
                            }
                            Expr::Block(z) => {
                                self.block(&mut z.block);
                                break;
                            }
                            _ => break,
                        }
                    }
                }
                Expr::Match(m) => {
                    for a in &mut m.arms {
                        match &mut *a.body {
                            Expr::Block(z) => self.block(&mut z.block),
                            x @ Expr::Continue(_) => *x = syn::parse_quote!({}),
                            _ => (),
                        }
                    }
                }
                _ => (),
            }
        }
    }
}
impl VisitMut for Continues {
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        self.block(&mut f.body);
    }
}

/// Brings the functions a later change added or renamed back into the shape the contracts speak about.
pub fn run(file: &mut syn::File, known: &str) -> BTreeMap<String, usize> {
    let mut old: HashMap<&str, HashSet<&str>> = HashMap::new();
    let mut names: HashSet<&str> = HashSet::new();
    for l in known.lines() {
        if let Some((k, s)) = l.split_once('\t') {
            old.entry(k).or_default().insert(s);
            names.insert(k.rsplit("::").next().unwrap_or(k));
        }
    }
    let mut done = BTreeMap::new();
    // renamed ones
    let now = collect(file);
    let present: HashSet<&str> = now.iter().map(|h| h.key.as_str()).collect();
    let owner = |k: &str| k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
    let mut ren = HashMap::new();
    for (k, shapes) in &old {
        if present.contains(k) || shapes.len() != 1 {
            continue;
        }
        let s = shapes.iter().next().unwrap();
        let new: Vec<&Helper> = now.iter().filter(|h| !h.is_trait && !old.contains_key(h.key.as_str()) && owner(&h.key) == owner(k) && shape(&h.sig) == *s && !names.contains(h.sig.ident.to_string().as_str())).collect();
        let gone = old.iter().filter(|(o, t)| !present.contains(**o) && owner(o) == owner(k) && t.contains(s)).count();
        if new.len() == 1 && gone == 1 {
            ren.insert(new[0].sig.ident.to_string(), k.rsplit("::").next().unwrap().to_string());
            *done.entry(format!("renamed function found again: {} is {k}", new[0].key)).or_default() += 1;
        }
    }
    if !ren.is_empty() {
        Rename(ren).visit_file_mut(file);
    }
    // new ones
    let mut helpers: HashMap<String, Helper> = HashMap::new();
    let mut twice: HashSet<String> = HashSet::new();
    for h in collect(file) {
        let n = h.sig.ident.to_string();
        if old.contains_key(h.key.as_str()) || names.contains(n.as_str()) || h.is_trait {
            continue;
        }
        if helpers.insert(n.clone(), h).is_some() {
            twice.insert(n);
        }
    }
    helpers.retain(|k, _| !twice.contains(k));
    let mut i = Inliner { helpers, output: vec![], me: None, busy: vec![], n: 0, done: BTreeMap::new() };
    i.visit_file_mut(file);
    let mut c = Continues(0);
    c.visit_file_mut(file);
    if c.0 > 0 {
        done.insert("continue in a for loop turned into else".into(), c.0);
    }
    for (k, v) in i.done {
        *done.entry(format!("helper without contract inlined: {k}")).or_default() += v;
    }
    done
}
