//! Inlining of helper functions that carry no contract.  A function the contracts do not know
//! (one extracted from a function under contract, say) is not verified on its own: its calls are
//! replaced by its body, with its parameters bound to the arguments first, so that what the
//! verifier sees of the caller is the code that runs.  Nested functions and closures bound by a
//! `let` are treated alike.  A call that cannot be replaced faithfully is left as it is; the
//! caller then is outside the verifier's reach and reported as such.
use crate::contract::Contracts;
use crate::Src;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone)]
struct Helper {
    file: String,
    /// type of the inherent impl it is in
    ty: Option<syn::Type>,
    impl_generics: Vec<String>,
    own_generics: Vec<String>,
    recv: Option<Recv>,
    params: Vec<(syn::Pat, Option<syn::Type>)>,
    ret: Option<syn::Type>,
    body: syn::Block,
    /// a closure: what it captures is in scope at the call
    closure: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Recv {
    Value,
    Ref,
    Mut,
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn mentions<T: ToTokens>(t: &T, names: &[String]) -> bool {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    names.iter().any(|n| s.contains(n))
}
fn subst(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(r) => r.clone(),
                None => TokenTree::Ident(i).into(),
            },
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map));
                n.set_span(g.span());
                TokenTree::Group(n).into()
            }
            o => TokenStream::from(o),
        })
        .collect()
}

/// the names bound by patterns
#[derive(Default)]
struct Bound {
    names: BTreeMap<String, usize>,
}
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        *self.names.entry(p.ident.to_string()).or_default() += 1;
        syn::visit::visit_pat_ident(self, p);
    }
}
/// the single-segment paths used as expressions, or as the start of a path
#[derive(Default)]
struct Used {
    names: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for Used {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.segments.len() == 1 {
            self.names.insert(p.path.segments[0].ident.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        idents(m.tokens.clone(), &mut self.names);
    }
}
/// does it leave the function early?
#[derive(Default)]
struct Leaves {
    yes: bool,
}
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.yes = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.yes = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let t = m.tokens.to_string();
        self.yes |= t.contains("return") || t.contains('?');
    }
}
fn leaves_e(e: &syn::Expr) -> bool {
    let mut l = Leaves::default();
    l.visit_expr(e);
    l.yes
}
fn leaves_s(s: &[syn::Stmt]) -> bool {
    let mut l = Leaves::default();
    s.iter().for_each(|s| l.visit_stmt(s));
    l.yes
}
fn has_local(s: &[syn::Stmt]) -> bool {
    s.iter().any(|s| matches!(s, syn::Stmt::Local(_) | syn::Stmt::Item(_)))
}
/// does control always leave the function through the end of these statements?
fn diverges(s: &[syn::Stmt]) -> bool {
    match s.last() {
        Some(syn::Stmt::Expr(e, _)) => diverges_e(e),
        _ => false,
    }
}
fn diverges_e(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => diverges(&b.block.stmts),
        syn::Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|e| diverges_e(&e.1)).unwrap_or(false),
        _ => false,
    }
}

/// the statements of a function body as the content of a block with the same value, without
/// `return` and `?`
fn tail(s: &[syn::Stmt], option: Option<bool>) -> Option<TokenStream> {
    let Some(i) = s.iter().position(|x| leaves_s(std::slice::from_ref(x))) else {
        return Some(quote!(#(#s)*));
    };
    let (pre, rest) = (&s[..i], &s[i + 1..]);
    let out = match &s[i] {
        syn::Stmt::Expr(e, semi) => tail_e(e, semi.is_some(), rest, option)?,
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if let Some((_, d)) = &init.diverge {
                let (p, e) = (&l.pat, &init.expr);
                if leaves_e(e) {
                    return None;
                }
                let d = match &**d {
                    syn::Expr::Block(b) if diverges(&b.block.stmts) => tail(&b.block.stmts, option)?,
                    _ => return None,
                };
                let r = tail(rest, option)?;
                quote!(match #e { #p => { #r } _ => { #d } })
            } else {
                let syn::Expr::Try(t) = &*init.expr else { return None };
                let p = &l.pat;
                let r = tail(rest, option)?;
                question(&t.expr, quote!(let #p = vx_q;), r, option)?
            }
        }
        _ => return None,
    };
    Some(quote!(#(#pre)* #out))
}
fn question(e: &syn::Expr, bind: TokenStream, rest: TokenStream, option: Option<bool>) -> Option<TokenStream> {
    if leaves_e(e) {
        return None;
    }
    Some(if option? {
        quote!(match #e { Some(vx_q) => { #bind #rest } None => None })
    } else {
        quote!(match #e { Ok(vx_q) => { #bind #rest } Err(vx_q) => Err(vx_q) })
    })
}
fn tail_e(e: &syn::Expr, semi: bool, rest: &[syn::Stmt], option: Option<bool>) -> Option<TokenStream> {
    let branch = |b: &[syn::Stmt]| -> Option<TokenStream> {
        if diverges(b) || rest.is_empty() {
            return tail(b, option);
        }
        if has_local(b) {
            return None;
        }
        let mut all = b.to_vec();
        if let Some(syn::Stmt::Expr(_, s @ None)) = all.last_mut() {
            *s = Some(Default::default());
        }
        all.extend(rest.to_vec());
        tail(&all, option)
    };
    Some(match e {
        syn::Expr::Return(r) => {
            let v = r.expr.as_ref().map(|e| e.to_token_stream()).unwrap_or(quote!(()));
            if r.expr.as_ref().map(|e| leaves_e(e)).unwrap_or(false) {
                return None;
            }
            v
        }
        syn::Expr::If(f) => {
            if leaves_e(&f.cond) {
                return None;
            }
            let c = &f.cond;
            let t = branch(&f.then_branch.stmts)?;
            let el = match &f.else_branch {
                None => tail(rest, option)?,
                Some((_, e)) => match &**e {
                    syn::Expr::Block(b) => branch(&b.block.stmts)?,
                    e => tail_e(e, semi, rest, option)?,
                },
            };
            quote!(if #c { #t } else { #el })
        }
        syn::Expr::Match(m) => {
            if leaves_e(&m.expr) {
                return None;
            }
            let x = &m.expr;
            let mut arms = TokenStream::new();
            for a in &m.arms {
                let p = &a.pat;
                let g = match &a.guard {
                    Some((i, g)) => {
                        if leaves_e(g) {
                            return None;
                        }
                        quote!(#i #g)
                    }
                    None => quote!(),
                };
                let b = match &*a.body {
                    syn::Expr::Block(b) => branch(&b.block.stmts)?,
                    e => branch(&[syn::Stmt::Expr(e.clone(), None)])?,
                };
                arms.extend(quote!(#p #g => { #b }));
            }
            quote!(match #x { #arms })
        }
        syn::Expr::Block(b) if rest.is_empty() => {
            let t = tail(&b.block.stmts, option)?;
            quote!({ #t })
        }
        syn::Expr::Try(t) if semi => question(&t.expr, quote!(), tail(rest, option)?, option)?,
        _ => return None,
    })
}

fn recv_of(sig: &syn::Signature) -> Option<Option<Recv>> {
    match sig.receiver() {
        None => Some(None),
        Some(r) if r.colon_token.is_some() => None,
        Some(r) => Some(Some(match (&r.reference, &r.mutability) {
            (None, _) => Recv::Value,
            (Some(_), Some(_)) => Recv::Mut,
            _ => Recv::Ref,
        })),
    }
}

fn helper(file: &str, sig: &syn::Signature, body: &syn::Block, ty: Option<(&syn::Type, &syn::Generics)>) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.unsafety.is_some() || sig.variadic.is_some() {
        return None;
    }
    let gens = |g: &syn::Generics| -> Vec<String> {
        g.params
            .iter()
            .filter_map(|p| match p {
                syn::GenericParam::Type(t) => Some(t.ident.to_string()),
                syn::GenericParam::Const(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect()
    };
    Some(Helper {
        file: file.to_string(),
        ty: ty.map(|t| t.0.clone()),
        impl_generics: ty.map(|t| gens(t.1)).unwrap_or_default(),
        own_generics: gens(&sig.generics),
        recv: recv_of(sig)?,
        params: sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some(((*t.pat).clone(), Some((*t.ty).clone()))),
                _ => None,
            })
            .collect(),
        ret: match &sig.output {
            syn::ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        },
        body: body.clone(),
        closure: false,
    })
}

fn cfg_out(attrs: &[syn::Attribute]) -> bool {
    crate::has_cfg_test(attrs)
}

#[derive(Default)]
struct World {
    /// key -> the helpers of that key (free functions: name; inherent: Type::name)
    helpers: BTreeMap<String, Vec<Helper>>,
    /// method name -> number of functions of that name in the crate's impls and traits
    methods: BTreeMap<String, usize>,
    /// function name -> whether every function of that name returns an `Option` (true) or a
    /// `Result` (false)
    returns: BTreeMap<String, Option<bool>>,
    /// field name -> likewise for the fields of that name
    fields: BTreeMap<String, Option<bool>>,
}
impl World {
    fn note_field(&mut self, name: &str, t: &syn::Type) {
        let r = match (t, crate::type_name(t).as_str()) {
            (syn::Type::Path(_), "Option") => Some(true),
            (syn::Type::Path(_), "Result") => Some(false),
            _ => None,
        };
        self.fields.entry(name.to_string()).and_modify(|o| if *o != r { *o = None }).or_insert(r);
    }
    fn note(&mut self, sig: &syn::Signature) {
        let r = match &sig.output {
            syn::ReturnType::Type(_, t) => match crate::type_name(t).as_str() {
                "Option" => Some(true),
                "Result" => Some(false),
                _ => None,
            },
            _ => None,
        };
        self.returns.entry(sig.ident.to_string()).and_modify(|o| if *o != r { *o = None }).or_insert(r);
    }
}

fn world(parsed: &BTreeMap<String, (Src, syn::File)>, cs: &Contracts) -> World {
    let mut w = World::default();
    for (file, (_, f)) in parsed {
        let fc = cs.files.get(file);
        let known = |k: &str| fc.map(|c| c.fns.contains_key(k) || c.drop.contains(k)).unwrap_or(false);
        for it in &f.items {
            match it {
                syn::Item::Fn(f) if !cfg_out(&f.attrs) => {
                    let k = f.sig.ident.to_string();
                    w.note(&f.sig);
                    if !known(&k) {
                        if let Some(h) = helper(file, &f.sig, &f.block, None) {
                            w.helpers.entry(k).or_default().push(h);
                        }
                    }
                }
                syn::Item::Impl(im) if !cfg_out(&im.attrs) => {
                    for d in &im.items {
                        let syn::ImplItem::Fn(f) = d else { continue };
                        if cfg_out(&f.attrs) {
                            continue;
                        }
                        *w.methods.entry(f.sig.ident.to_string()).or_default() += 1;
                        w.note(&f.sig);
                        let k = format!("{}::{}", crate::type_name(&im.self_ty), f.sig.ident);
                        if im.trait_.is_none() && !known(&k) {
                            if let Some(h) = helper(file, &f.sig, &f.block, Some((&im.self_ty, &im.generics))) {
                                w.helpers.entry(k).or_default().push(h);
                            }
                        }
                    }
                }
                syn::Item::Struct(t) if !cfg_out(&t.attrs) => {
                    for f in &t.fields {
                        if let Some(i) = &f.ident {
                            w.note_field(&i.to_string(), &f.ty);
                            w.note_field(&format!("{}.{i}", t.ident), &f.ty);
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for d in &t.items {
                        if let syn::TraitItem::Fn(f) = d {
                            *w.methods.entry(f.sig.ident.to_string()).or_default() += 1;
                        }
                    }
                }
                _ => {}
            }
        }
    }
    w
}

struct Caller<'a> {
    w: &'a World,
    src: &'a Src,
    file: String,
    ty: Option<syn::Type>,
    recv: Option<Recv>,
    bound: BTreeMap<String, usize>,
    /// declared types of the parameters that no other binding shadows
    types: BTreeMap<String, syn::Type>,
    /// what the variables that are bound once, by a plain `let`, are bound to
    lets: BTreeMap<String, syn::Expr>,
    locals: BTreeMap<String, Helper>,
    tails: BTreeSet<(usize, usize)>,
    edits: Vec<(usize, usize, String)>,
    log: Vec<(String, usize)>,
    n: &'a mut usize,
    same_ret: Option<String>,
}

fn place(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) if p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        syn::Expr::Field(f) => place(&f.base),
        syn::Expr::Paren(p) => place(&p.expr),
        _ => None,
    }
}

impl<'a> Caller<'a> {
    fn own_ty(&self) -> Option<String> {
        self.ty.as_ref().map(crate::type_name)
    }
    /// the declared type of a receiver (or the caller's own type, if there is none)
    fn recv_ty(&self, r: Option<&syn::Expr>) -> Option<syn::Type> {
        match r {
            None => self.ty.clone(),
            Some(syn::Expr::Path(p)) if p.path.is_ident("self") => self.ty.clone(),
            Some(syn::Expr::Paren(p)) => self.recv_ty(Some(&p.expr)),
            Some(syn::Expr::Path(p)) => {
                let mut t = self.types.get(&p.path.get_ident()?.to_string())?.clone();
                while let syn::Type::Reference(r) = t {
                    t = (*r.elem).clone();
                }
                match &t {
                    syn::Type::Path(p) if p.path.is_ident("Self") => self.ty.clone(),
                    _ => Some(t),
                }
            }
            _ => None,
        }
    }
    fn in_scope(&self, h: &Helper) -> bool {
        // what the helper's text refers to has to mean the same here
        let mut b = Bound::default();
        b.visit_block(&h.body);
        h.params.iter().for_each(|p| b.visit_pat(&p.0));
        let mut u = Used::default();
        u.visit_block(&h.body);
        // (what a closure captures is not bound again where it is in scope, see visit_block)
        h.closure || u.names.iter().filter(|n| !b.names.contains_key(*n) && *n != "self").all(|n| !self.bound.contains_key(n))
    }
    fn inline(&mut self, h: &Helper, recv: Option<&syn::Expr>, args: &[&syn::Expr], turbofish: Option<Vec<TokenStream>>, span: (usize, usize)) -> Option<String> {
        if args.len() != h.params.len() || !self.in_scope(h) || (h.recv.is_some() != recv.is_some()) {
            return None;
        }
        let mut map: BTreeMap<String, TokenStream> = BTreeMap::new();
        // the type parameters
        let mut open: Vec<String> = vec![];
        if !h.own_generics.is_empty() {
            match turbofish {
                Some(t) if t.len() == h.own_generics.len() => h.own_generics.iter().cloned().zip(t).for_each(|(k, v)| {
                    map.insert(k, v);
                }),
                _ => open.extend(h.own_generics.clone()),
            }
        }
        if let Some(ty) = &h.ty {
            if self.ty.as_ref().map(|t| t.to_token_stream().to_string()) == Some(ty.to_token_stream().to_string()) && recv_is_self(recv) {
                // the same type, the same parameters
            } else if h.impl_generics.is_empty() {
                map.insert("Self".into(), ty.to_token_stream());
            } else {
                let args = |t: &syn::Type| -> Option<Vec<TokenStream>> {
                    let syn::Type::Path(p) = t else { return None };
                    match &p.path.segments.last()?.arguments {
                        syn::PathArguments::AngleBracketed(a) => Some(a.args.iter().map(|x| x.to_token_stream()).collect()),
                        _ => None,
                    }
                };
                let mut done = false;
                let of = self.recv_ty(recv);
                if of.as_ref().map(crate::type_name) == Some(crate::type_name(ty)) {
                    if let (Some(a), Some(b)) = (args(ty), of.as_ref().and_then(args)) {
                        if a.len() == b.len() && a.iter().all(|x| h.impl_generics.contains(&x.to_string())) {
                            a.iter().zip(b).for_each(|(k, v)| {
                                map.insert(k.to_string(), v);
                            });
                            map.insert("Self".into(), of.to_token_stream());
                            done = true;
                        }
                    }
                }
                if !done {
                    open.extend(h.impl_generics.clone());
                    open.push("Self".into());
                }
            }
        }
        if mentions(&h.body, &open) {
            return None;
        }
        // values first, names after, so that no argument is evaluated under a parameter's name
        *self.n += 1;
        let id = *self.n;
        let mut places: BTreeMap<String, TokenStream> = BTreeMap::new();
        let mut pre = TokenStream::new();
        let mut post = TokenStream::new();
        if let (Some(k), Some(r)) = (h.recv, recv) {
            let mut b = Bound::default();
            b.visit_block(&h.body);
            h.params.iter().for_each(|p| b.visit_pat(&p.0));
            let plain = matches!(r, syn::Expr::Path(p) if p.path.is_ident("self"));
            let by_ref = matches!(r, syn::Expr::Reference(_));
            if k == Recv::Value {
                let v: Ident = format_ident!("vx_s{}", id);
                pre.extend(quote!(let #v = #r;));
                map.insert("self".into(), v.to_token_stream());
            } else if plain && (self.recv == Some(k) || self.recv == Some(Recv::Mut)) {
                // the caller's own receiver
            } else if let Some(root) = place(r) {
                if b.names.contains_key(&root) || plain && k == Recv::Mut {
                    return None;
                }
                map.insert("self".into(), quote!((#r)));
            } else if by_ref && k == Recv::Ref {
                let v: Ident = format_ident!("vx_s{}", id);
                pre.extend(quote!(let #v = #r;));
                map.insert("self".into(), v.to_token_stream());
            } else if k == Recv::Ref {
                let v: Ident = format_ident!("vx_s{}", id);
                pre.extend(quote!(let #v = &#r;));
                map.insert("self".into(), v.to_token_stream());
            } else {
                return None;
            }
        }
        for (i, ((pat, ty), a)) in h.params.iter().zip(args).enumerate() {
            let v: Ident = format_ident!("vx_a{}_{}", id, i);
            let plain_ty = ty.as_ref().filter(|t| {
                let s = t.to_token_stream().to_string();
                !mentions(*t, &open) && !s.contains("impl ") && !s.contains('\'')
            });
            // a mutable borrow of a place is the place
            if let (Some(syn::Type::Reference(tr)), syn::Expr::Reference(er), syn::Pat::Ident(pi)) = (ty, a, pat) {
                if tr.mutability.is_some() && er.mutability.is_some() {
                    let root = place(&er.expr)?;
                    let mut b = Bound::default();
                    b.visit_block(&h.body);
                    if b.names.contains_key(&root) || b.names.contains_key(&pi.ident.to_string()) || root != pi.ident.to_string() && mentions(&h.body, &[root]) {
                        return None;
                    }
                    let x = &er.expr;
                    map.insert(pi.ident.to_string(), quote!((#x)));
                    places.insert(pi.ident.to_string(), quote!((&mut #x)));
                    continue;
                }
            }
            match plain_ty {
                Some(t) => {
                    let t = subst(t.to_token_stream(), &map);
                    pre.extend(quote!(let #v: #t = #a;))
                }
                None => pre.extend(quote!(let #v = #a;)),
            }
            post.extend(quote!(let #pat = #v;));
        }
        let option = h.ret.as_ref().and_then(|t| match crate::type_name(t).as_str() {
            "Option" => Some(true),
            "Result" => Some(false),
            _ => None,
        });
        let ret_text = h.ret.as_ref().map(|t| t.to_token_stream().to_string());
        let in_tail = !h.closure && self.tails.contains(&span) && ret_text.is_some() && ret_text == self.same_ret;
        let stmts = &h.body.stmts;
        let body = if in_tail { quote!(#(#stmts)*) } else { tail(stmts, option)? };
        // `*p` of a parameter that has become a place is the place itself
        let body = if places.is_empty() { subst(body, &map) } else { subst_places(body, &places, &map) };
        let unit = h.ret.is_none() && !h.closure;
        let body = if unit { quote!(#body ;) } else { body };
        Some(quote!(({ #pre #post #body })).to_string())
    }
    fn key_of(&self, p: &syn::ExprPath) -> Option<(String, Option<Vec<TokenStream>>)> {
        if p.qself.is_some() {
            return None;
        }
        let segs: Vec<_> = p.path.segments.iter().collect();
        let last = segs.last()?;
        let tf = match &last.arguments {
            syn::PathArguments::AngleBracketed(a) => Some(a.args.iter().map(|x| x.to_token_stream()).collect()),
            _ => None,
        };
        let name = last.ident.to_string();
        if segs.len() == 1 {
            return Some((name, tf));
        }
        let q = segs[segs.len() - 2];
        let qn = q.ident.to_string();
        if qn == "Self" {
            return Some((format!("{}::{}", self.own_ty()?, name), tf));
        }
        if qn.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
            return Some((format!("{qn}::{name}"), tf));
        }
        Some((name, tf))
    }
    /// is the value an `Option` (true) or a `Result` (false)?
    fn head(&self, e: &syn::Expr) -> Option<bool> {
        let of = |name: &str| self.w.returns.get(name).copied().flatten();
        let kind = |t: &syn::Type| match crate::type_name(t).as_str() {
            "Option" => Some(true),
            "Result" => Some(false),
            _ => None,
        };
        match e {
            syn::Expr::Paren(p) => self.head(&p.expr),
            syn::Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                match (self.types.get(&n), self.lets.get(&n)) {
                    (Some(t @ syn::Type::Path(_)), _) => kind(t),
                    (None, Some(e)) if !mentions(e, &[n]) => self.head(e),
                    _ => None,
                }
            }
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(i) => {
                    let own = self.recv_ty(Some(&f.base)).map(|t| format!("{}.{i}", crate::type_name(&t)));
                    own.and_then(|k| self.w.fields.get(&k)).or_else(|| self.w.fields.get(&i.to_string())).copied().flatten()
                }
                _ => None,
            },
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "num_cmp" | "partial_cmp" | "get" | "get_mut" | "first" | "last" | "ok" | "next" => Some(true),
                    "try_into" | "binary_search" | "binary_search_by" | "binary_search_by_key" | "map_err" | "ok_or" | "ok_or_else" => Some(false),
                    "map" | "and_then" | "or_else" | "or" | "and" | "filter" | "copied" | "cloned" | "clone" | "as_ref" | "as_mut" | "take" => self.head(&m.receiver),
                    _ if n.starts_with("checked_") => Some(true),
                    _ => of(&n),
                }
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => {
                    let t = p.to_token_stream().to_string().replace(' ', "");
                    let n = p.path.segments.last()?.ident.to_string();
                    match n.as_str() {
                        "Some" => Some(true),
                        "Ok" | "Err" | "try_from" => Some(false),
                        _ if t == "std::env::var_os" => Some(true),
                        _ if t == "std::env::var" || t == "std::fs::read" => Some(false),
                        _ => of(&n),
                    }
                }
                _ => None,
            },
            _ => None,
        }
    }
    /// `x.map(|p| b)` and its like as the `match` they stand for
    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<String> {
        let n = m.method.to_string();
        let x = &m.receiver;
        let args: Vec<&syn::Expr> = m.args.iter().collect();
        let closure = |e: &syn::Expr| -> Option<(Option<(syn::Pat, Option<syn::Type>)>, TokenStream)> {
            let syn::Expr::Closure(c) = e else { return None };
            if c.inputs.len() > 1 || !matches!(c.output, syn::ReturnType::Default) {
                return None;
            }
            let body = match &*c.body {
                syn::Expr::Block(b) => tail(&b.block.stmts, None)?,
                e if leaves_e(e) => return None,
                e => e.to_token_stream(),
            };
            let p = c.inputs.first().map(|p| match p {
                syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                p => (p.clone(), None),
            });
            Some((p, body))
        };
        *self.n += 1;
        let v: Ident = format_ident!("vx_m{}", *self.n);
        let arm = |c: &(Option<(syn::Pat, Option<syn::Type>)>, TokenStream)| -> TokenStream {
            let b = &c.1;
            match &c.0 {
                Some((syn::Pat::Wild(_), _)) | None => quote!({ #b }),
                Some((p, Some(t))) => quote!({ let #p: #t = #v; #b }),
                Some((p, None)) => quote!({ let #p = #v; #b }),
            }
        };
        if n == "then" && args.len() == 1 {
            let c = closure(args[0])?;
            if c.0.is_some() {
                return None;
            }
            let b = arm(&c);
            return Some(quote!((if #x { Some(#b) } else { None })).to_string());
        }
        if !matches!(args.last(), Some(syn::Expr::Closure(_))) {
            return None;
        }
        let option = self.head(x)?;
        let simple = |e: &syn::Expr| matches!(e, syn::Expr::Lit(_) | syn::Expr::Path(_));
        let one = if args.len() == 1 { Some(closure(args[0])?) } else { None };
        let (good, bad) = match (n.as_str(), option, &one) {
            ("map", true, Some(c)) => { let b = arm(c); (quote!(Some(#b)), quote!(None => None)) }
            ("and_then", true, Some(c)) => (arm(c), quote!(None => None)),
            ("is_some_and", true, Some(c)) => (arm(c), quote!(None => false)),
            ("unwrap_or_else", true, Some(c)) => { let b = arm(c); (quote!(#v), quote!(None => #b)) }
            ("or_else", true, Some(c)) => { let b = arm(c); (quote!(Some(#v)), quote!(None => #b)) }
            ("ok_or_else", true, Some(c)) => { let b = arm(c); (quote!(Ok(#v)), quote!(None => Err(#b))) }
            ("filter", true, Some((Some((p, _)), b))) => (quote!({ let vx_keep = { let #p = &#v; #b }; if vx_keep { Some(#v) } else { None } }), quote!(None => None)),
            ("map_or", true, None) if args.len() == 2 && simple(args[0]) => { let d = args[0]; (arm(&closure(args[1])?), quote!(None => #d)) }
            ("map_or_else", true, None) if args.len() == 2 => { let d = arm(&closure(args[0])?); (arm(&closure(args[1])?), quote!(None => #d)) }
            ("map", false, Some(c)) => { let b = arm(c); (quote!(Ok(#b)), quote!(Err(vx_e) => Err(vx_e))) }
            ("and_then", false, Some(c)) => (arm(c), quote!(Err(vx_e) => Err(vx_e))),
            ("is_ok_and", false, Some(c)) => (arm(c), quote!(Err(_) => false)),
            ("map_err", false, Some(c)) => { let b = arm(c); (quote!(Ok(#v)), quote!(Err(#v) => Err(#b))) }
            ("or_else", false, Some(c)) => { let b = arm(c); (quote!(Ok(#v)), quote!(Err(#v) => #b)) }
            ("unwrap_or_else", false, Some(c)) => { let b = arm(c); (quote!(#v), quote!(Err(#v) => #b)) }
            ("map_or", false, None) if args.len() == 2 && simple(args[0]) => { let d = args[0]; (arm(&closure(args[1])?), quote!(Err(_) => #d)) }
            _ => return None,
        };
        Some(if option { quote!((match #x { Some(#v) => #good, #bad })) } else { quote!((match #x { Ok(#v) => #good, #bad })) }.to_string())
    }
    fn pick(&self, key: &str) -> Option<Helper> {
        let hs = self.w.helpers.get(key)?;
        let mut same: Vec<&Helper> = hs.iter().filter(|h| h.file == self.file).collect();
        if same.is_empty() {
            same = hs.iter().collect();
        }
        if same.len() == 1 {
            Some(same[0].clone())
        } else {
            None
        }
    }
}

/// is the helper's impl type the caller's own (a call on `self`, or without a receiver)?
fn recv_is_self(r: Option<&syn::Expr>) -> bool {
    match r {
        None => true,
        Some(syn::Expr::Path(p)) => p.path.is_ident("self"),
        _ => false,
    }
}

/// Parameters that stand for places of the caller: `*p`, `p.x` and `p[i]` become the place itself,
/// `p` on its own a borrow of it.
fn subst_places(ts: TokenStream, places: &BTreeMap<String, TokenStream>, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let ts: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut star = false;
    for (i, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '*' => {
                let prefix = match out.last() {
                    None => true,
                    Some(TokenTree::Punct(q)) => q.as_char() != '?',
                    Some(TokenTree::Ident(i)) => i == "return" || i == "if" || i == "match" || i == "in",
                    Some(_) => false,
                };
                if let Some(TokenTree::Ident(n)) = ts.get(i + 1) {
                    if prefix && places.contains_key(&n.to_string()) {
                        star = true;
                        continue;
                    }
                }
                out.push(t.clone());
            }
            TokenTree::Ident(n) => {
                let name = n.to_string();
                let field = matches!(out.last(), Some(TokenTree::Punct(q)) if q.as_char() == '.');
                let used = match ts.get(i + 1) {
                    Some(TokenTree::Punct(q)) => q.as_char() == '.',
                    Some(TokenTree::Group(g)) => g.delimiter() == proc_macro2::Delimiter::Bracket,
                    _ => false,
                };
                match (places.get(&name), map.get(&name)) {
                    _ if field => out.push(t.clone()),
                    (Some(p), _) if !star && !used => out.extend(p.clone()),
                    (_, Some(m)) => out.extend(m.clone()),
                    _ => out.push(t.clone()),
                }
                star = false;
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst_places(g.stream(), places, map)))),
            t => out.push(t.clone()),
        }
    }
    out.into_iter().collect()
}

impl<'a, 'ast> Visit<'ast> for Caller<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let span = self.src.range(e.span());
        let found = match e {
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => {
                    let args: Vec<&syn::Expr> = c.args.iter().collect();
                    let name = p.path.get_ident().map(|i| i.to_string());
                    match name.as_ref().and_then(|n| self.locals.get(n)).cloned() {
                        Some(h) => self.inline(&h, None, &args, None, span).map(|t| (name.unwrap(), t)),
                        None => self.key_of(p).and_then(|(k, tf)| {
                            if name.as_ref().map(|n| self.bound.contains_key(n)).unwrap_or(false) {
                                return None;
                            }
                            let h = self.pick(&k)?;
                            let (r, a) = if h.recv.is_some() { (args.first().copied(), args.get(1..).unwrap_or(&[])) } else { (None, &args[..]) };
                            self.inline(&h, r, a, tf, span).map(|t| (k, t))
                        }),
                    }
                }
                _ => None,
            },
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let own = self.own_ty().map(|t| format!("{t}::{n}"));
                let on_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let key = match own {
                    Some(k) if on_self && self.w.helpers.contains_key(&k) => Some(k),
                    _ if self.w.methods.get(&n) == Some(&1) => self.w.helpers.keys().find(|k| k.ends_with(&format!("::{n}"))).cloned(),
                    _ => None,
                };
                key.and_then(|k| {
                    let h = self.pick(&k)?;
                    h.recv?;
                    let args: Vec<&syn::Expr> = m.args.iter().collect();
                    let tf = m.turbofish.as_ref().map(|a| a.args.iter().map(|x| x.to_token_stream()).collect());
                    self.inline(&h, Some(&m.receiver), &args, tf, span).map(|t| (k, t))
                })
            }
            _ => None,
        };
        let found = found.or_else(|| match e {
            syn::Expr::MethodCall(m) => self.combinator(m).map(|t| (format!("{}(closure)", m.method), t)),
            _ => None,
        });
        if let Some((k, mut t)) = found {
            // the same number of lines as before
            let lines = self.src.text[span.0..span.1].matches('\n').count();
            t.push_str(&"\n".repeat(lines));
            self.edits.push((span.0, span.1, t));
            self.log.push((k, e.span().start().line));
            return;
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let saved = self.locals.clone();
        let near = nested(&self.file, b);
        for (k, (h, _, at)) in &near {
            let mut later = Bound::default();
            b.stmts[at + 1..].iter().for_each(|s| later.visit_stmt(s));
            let mut u = Used::default();
            u.visit_block(&h.body);
            if later.names.contains_key(k) || h.closure && u.names.iter().any(|n| later.names.contains_key(n)) {
                self.locals.remove(k);
            } else {
                self.locals.insert(k.clone(), h.clone());
            }
        }
        for s in &b.stmts {
            let def = near.iter().find(|d| self.src.range(d.1 .1) == self.src.range(s.span()));
            match def {
                // not into the bodies of the nested functions and closures themselves
                Some((k, (_, span, _))) => {
                    let used = b.stmts.iter().filter(|s| self.src.range(s.span()) != self.src.range(*span)).any(|s| mentions(s, &[k.clone()]));
                    if !used {
                        // nobody refers to it any more
                        let r = self.src.range(*span);
                        let lines = self.src.text[r.0..r.1].matches('\n').count();
                        self.edits.push((r.0, r.1, "\n".repeat(lines)));
                        self.log.push((format!("nested {k}"), span.start().line));
                    }
                }
                None => self.visit_stmt(s),
            }
        }
        self.locals = saved;
    }
}

/// the spans of the expressions in tail position
fn tails(e: &syn::Expr, src: &Src, out: &mut BTreeSet<(usize, usize)>) {
    out.insert(src.range(e.span()));
    let block = |b: &syn::Block, out: &mut BTreeSet<(usize, usize)>| {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            tails(e, src, out);
        }
    };
    match e {
        syn::Expr::If(i) => {
            block(&i.then_branch, out);
            if let Some((_, e)) = &i.else_branch {
                tails(e, src, out);
            }
        }
        syn::Expr::Block(b) => block(&b.block, out),
        syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, src, out)),
        syn::Expr::Return(r) => {
            if let Some(e) = &r.expr {
                tails(e, src, out);
            }
        }
        _ => {}
    }
}
#[derive(Default)]
struct Lets {
    names: BTreeMap<String, syn::Expr>,
}
impl<'ast> Visit<'ast> for Lets {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if i.by_ref.is_none() && i.mutability.is_none() && init.diverge.is_none() {
                self.names.insert(i.ident.to_string(), (*init.expr).clone());
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
struct Returns<'a> {
    src: &'a Src,
    out: BTreeSet<(usize, usize)>,
}
impl<'a, 'ast> Visit<'ast> for Returns<'a> {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let Some(e) = &r.expr {
            tails(e, self.src, &mut self.out);
        }
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

/// nested functions and closures bound by `let` directly in the block
fn nested(file: &str, b: &syn::Block) -> BTreeMap<String, (Helper, Span, usize)> {
    let mut out = BTreeMap::new();
    for (at, s) in b.stmts.iter().enumerate() {
        match s {
            syn::Stmt::Item(syn::Item::Fn(f)) => {
                if let Some(h) = helper(file, &f.sig, &f.block, None) {
                    out.insert(f.sig.ident.to_string(), (h, s.span(), at));
                }
            }
            syn::Stmt::Local(l) => {
                let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) else { continue };
                let syn::Expr::Closure(c) = &*i.expr else { continue };
                if c.capture.is_some() || i.diverge.is_some() || p.mutability.is_some() {
                    continue;
                }
                let body = match &*c.body {
                    syn::Expr::Block(b) => b.block.clone(),
                    e => syn::Block { brace_token: Default::default(), stmts: vec![syn::Stmt::Expr(e.clone(), None)] },
                };
                let params = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    })
                    .collect();
                out.insert(
                    p.ident.to_string(),
                    (
                        Helper {
                            file: file.to_string(), ty: None, impl_generics: vec![], own_generics: vec![], recv: None, params,
                            ret: match &c.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None },
                            body, closure: true,
                        },
                        s.span(),
                        at,
                    ),
                );
            }
            _ => {}
        }
    }
    out
}

fn do_fn(w: &World, src: &Src, file: &str, ty: Option<&syn::Type>, sig: &syn::Signature, b: &syn::Block, n: &mut usize, edits: &mut Vec<(usize, usize, String)>, log: &mut Vec<(String, usize)>) {
    let mut bound = Bound::default();
    sig.inputs.iter().for_each(|a| {
        if let syn::FnArg::Typed(t) = a {
            bound.visit_pat(&t.pat)
        }
    });
    bound.visit_block(b);
    let mut types = BTreeMap::new();
    sig.inputs.iter().for_each(|a| {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(i) = &*t.pat {
                if bound.names.get(&i.ident.to_string()) == Some(&1) {
                    types.insert(i.ident.to_string(), (*t.ty).clone());
                }
            }
        }
    });
    let mut lets = Lets::default();
    lets.visit_block(b);
    lets.names.retain(|k, _| bound.names.get(k) == Some(&1));
    let mut ts = BTreeSet::new();
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        tails(e, src, &mut ts);
    }
    let mut r = Returns { src, out: ts };
    r.visit_block(b);
    let mut c = Caller {
        w,
        src,
        file: file.to_string(),
        ty: ty.cloned(),
        recv: recv_of(sig).flatten(),
        bound: bound.names,
        types,
        lets: lets.names,
        locals: BTreeMap::new(),
        tails: r.out,
        edits: vec![],
        log: vec![],
        n,
        same_ret: match &sig.output {
            syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
            _ => None,
        },
    };
    c.visit_block(b);
    edits.append(&mut c.edits);
    log.append(&mut c.log);
}

/// rewrites the sources; the number of lines stays the same.  Returns (file, helper, line).
pub fn expand(parsed: &mut BTreeMap<String, (Src, syn::File)>, cs: &Contracts) -> Vec<(String, String, usize)> {
    let mut out = vec![];
    let mut n = 0;
    let original: BTreeMap<String, String> = parsed.iter().map(|(k, v)| (k.clone(), v.0.text.clone())).collect();
    for round in 0.. {
        let w = world(parsed, cs);
        let mut changed: Vec<(String, String)> = vec![];
        for (file, fc) in &cs.files {
            let Some((src, f)) = parsed.get(file) else { continue };
            let (mut edits, mut log) = (vec![], vec![]);
            for it in &f.items {
                match it {
                    syn::Item::Fn(f) if !cfg_out(&f.attrs) && fc.fns.contains_key(&f.sig.ident.to_string()) => {
                        do_fn(&w, src, file, None, &f.sig, &f.block, &mut n, &mut edits, &mut log)
                    }
                    syn::Item::Impl(im) if !cfg_out(&im.attrs) => {
                        let ty = crate::type_name(&im.self_ty);
                        let tr = im.trait_.as_ref().map(|t| crate::trait_key(&t.1));
                        let prefix = match &tr {
                            None => ty.clone(),
                            Some(t) => format!("{t} for {ty}"),
                        };
                        let whole = im.trait_.as_ref().map(|t| fc.trait_impls.contains_key(&t.1.segments.last().unwrap().ident.to_string())).unwrap_or(false);
                        for d in &im.items {
                            let syn::ImplItem::Fn(f) = d else { continue };
                            if !cfg_out(&f.attrs) && (whole || fc.fns.contains_key(&format!("{prefix}::{}", f.sig.ident))) {
                                do_fn(&w, src, file, Some(&im.self_ty), &f.sig, &f.block, &mut n, &mut edits, &mut log)
                            }
                        }
                    }
                    _ => {}
                }
            }
            if edits.is_empty() {
                continue;
            }
            edits.sort();
            let mut text = src.text.clone();
            for (a, b, t) in edits.into_iter().rev() {
                text.replace_range(a..b, &t);
            }
            out.extend(log.into_iter().map(|(k, l)| (file.clone(), k, l)));
            changed.push((file.clone(), text));
        }
        if changed.is_empty() {
            return out;
        }
        for (file, text) in changed {
            match syn::parse_file(&text) {
                Ok(f) if round < 12 => {
                    parsed.insert(file, (Src::new(text), f));
                }
                _ => {
                    // recursion, or text that no longer parses: the source as it was
                    for (k, t) in &original {
                        if let Ok(f) = syn::parse_file(t) {
                            parsed.insert(k.clone(), (Src::new(t.clone()), f));
                        }
                    }
                    return vec![];
                }
            }
        }
    }
    out
}

/// the text of a block with the messages of its assertion and panic macros removed
pub fn strip_messages(b: &syn::Block, src: &Src) -> String {
    use syn::visit::Visit;
    struct V<'a> {
        src: &'a Src,
        base: usize,
        edits: Vec<(usize, usize, String)>,
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            let n = m.path.to_token_stream().to_string();
            let r = self.src.range(m.span());
            let a = crate::split_args(m.tokens.clone());
            let t = match n.as_str() {
                "panic" | "unreachable" => "panic!()".to_string(),
                "assert" if !a.is_empty() => format!("assert!({})", a[0]),
                "assert_eq" if a.len() > 1 => format!("assert!(({}) == ({}))", a[0], a[1]),
                _ => return,
            };
            self.edits.push((r.0 - self.base, r.1 - self.base, t));
        }
    }
    let (s, e) = src.range(b.span());
    let mut v = V { src, base: s, edits: vec![] };
    v.visit_block(b);
    let mut t = src.text[s..e].to_string();
    v.edits.sort();
    for (a, b, x) in v.edits.into_iter().rev() {
        t.replace_range(a..b, &x);
    }
    t
}
