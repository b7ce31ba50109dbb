//! vex: mechanical extraction of /repo's current source into a crate the verifier accepts.
//!
//! usage: vex <repo> <contract-dir> <out-dir>
//!
//! The text of every extracted function body is the repository's text.  The only edits are the
//! ones listed in <out-dir>/extraction.json ("edits"), each of which is one of a fixed set of
//! mechanical rewrites (see DESIGN.md, "What the extraction changes").
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::Visit;

mod codec;
mod consts;
mod contract;
mod dep;
mod inline;
use contract::{Contracts, FileC, FnC};

pub struct Src {
    pub text: String,
    line_start: Vec<usize>,
}

impl Src {
    pub fn new(text: String) -> Self {
        let mut line_start = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_start.push(i + 1);
            }
        }
        Src { text, line_start }
    }
    pub fn off(&self, lc: LineColumn) -> usize {
        let ls = self.line_start[lc.line - 1];
        let rest = &self.text[ls..];
        // columns are counted in characters
        let mut o = 0;
        for (n, (bi, _)) in rest.char_indices().enumerate() {
            if n == lc.column {
                return ls + bi;
            }
            o = bi;
        }
        let _ = o;
        self.text.len().min(ls + rest.len())
    }
    pub fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    pub fn slice(&self, s: Span) -> &str {
        let (a, b) = self.range(s);
        &self.text[a..b]
    }
}

pub struct Edit {
    pub at: usize,
    pub end: usize,
    pub text: String,
    pub order: usize,
}

pub struct Out<'a> {
    pub src: &'a Src,
    pub edits: Vec<Edit>,
    pub log: Vec<Value>,
    pub file: String,
}

impl<'a> Out<'a> {
    pub fn ins(&mut self, at: usize, text: impl Into<String>) {
        let order = self.edits.len();
        self.edits.push(Edit { at, end: at, text: text.into(), order });
    }
    pub fn rep(&mut self, r: (usize, usize), text: impl Into<String>) {
        let order = self.edits.len();
        self.edits.push(Edit { at: r.0, end: r.1, text: text.into(), order });
    }
    pub fn note(&mut self, kind: &str, what: impl Into<String>, line: usize) {
        self.log.push(json!({"file": self.file, "line": line, "kind": kind, "what": what.into()}));
    }
    pub fn finish(mut self) -> String {
        self.edits.sort_by_key(|e| (e.at, e.end > e.at, e.order));
        let mut out = String::new();
        let mut pos = 0;
        for e in &self.edits {
            if e.at < pos {
                // swallowed by an enclosing deletion
                continue;
            }
            out.push_str(&self.src.text[pos..e.at]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&self.src.text[pos..]);
        out
    }
}

/// token-level renaming of identifiers in contract text
pub fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let id: String = b[st..i].iter().collect();
            let prev = b[..st].iter().rev().find(|c| !c.is_whitespace());
            let field = prev == Some(&'.') && !(st >= 2 && b[st - 1] == '.' && b[st - 2] == '.');
            match map.get(&id) {
                Some(n) if !field => out.push_str(n),
                _ => out.push_str(&id),
            }
        } else if c.is_numeric() {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                out.push(b[i]);
                i += 1;
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]" || s == "#[cfg(momentous_verify)]"
    })
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn trait_key(p: &syn::Path) -> String {
    let seg = p.segments.last().unwrap();
    let mut s = seg.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .map(|x| match x {
                syn::GenericArgument::Type(t) => {
                    // only the head of the type argument, so that spelling differences don't matter
                    type_name(t)
                }
                o => o.to_token_stream().to_string(),
            })
            .filter(|s| s != "Self")
            .collect();
        if !args.is_empty() {
            s.push_str(&format!("<{}>", args.join(",")));
        }
    }
    s
}

struct Ctx<'a> {
    fc: &'a FileC,
    used: BTreeSet<String>,
    missing_params: Vec<String>,
    functions: Vec<Value>,
    uncontracted: Vec<Value>,
    consts: &'a consts::Consts,
    /// "file|function": not to be verified in this run (the verifier rejected its text)
    skip: &'a BTreeSet<String>,
}

fn start_of(attrs: &[syn::Attribute], whole: Span, src: &Src) -> usize {
    let mut s = src.off(whole.start());
    for a in attrs {
        s = s.min(src.off(a.span().start()));
    }
    s
}

fn make_pub(vis: &syn::Visibility, before: usize, o: &mut Out) {
    match vis {
        syn::Visibility::Public(_) => {}
        syn::Visibility::Inherited => o.ins(before, "pub "),
        syn::Visibility::Restricted(r) => {
            let rg = o.src.range(r.span());
            o.rep(rg, "pub ");
        }
    }
}

fn do_derives(
    attrs: &[syn::Attribute],
    name: &str,
    generics: &syn::Generics,
    data: &DataKind,
    o: &mut Out,
    fc: &FileC,
    tail: &mut String,
) {
    for a in attrs {
        let path = a.path().to_token_stream().to_string();
        if path == "error" {
            let r = o.src.range(a.span());
            o.rep(r, "");
            continue;
        }
        if path != "derive" {
            continue;
        }
        let mut keep: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        let _ = a.parse_nested_meta(|m| {
            names.push(m.path.segments.last().unwrap().ident.to_string());
            Ok(())
        });
        let copy = names.iter().any(|n| n == "Copy");
        for n in &names {
            if fc.drop_derive.contains(&format!("{name}::{n}")) {
                o.note("dropped", format!("derive({n}) of {name}"), a.span().start().line);
                continue;
            }
            match n.as_str() {
                "Copy" | "Eq" => keep.push(n.clone()),
                "PartialEq" => keep.push(n.clone()),
                "Ord" | "PartialOrd" => {
                    if !fc.drop_ord.contains(name) {
                        keep.push(n.clone())
                    }
                }
                "Clone" => {
                    if copy {
                        keep.push(n.clone())
                    } else if generics.params.is_empty() {
                        o.note("derive-expanded", format!("derive(Clone) of {name} written out field by field"), a.span().start().line);
                        let body = match data {
                            DataKind::Named(fs) => format!(
                                "{name} {{ {} }}",
                                fs.iter().map(|f| format!("{f}: self.{f}.clone()")).collect::<Vec<_>>().join(", ")
                            ),
                            DataKind::Tuple(k) => format!(
                                "{name}({})",
                                (0..*k).map(|i| format!("self.{i}.clone()")).collect::<Vec<_>>().join(", ")
                            ),
                            DataKind::Other => "unimplemented!()".to_string(),
                        };
                        tail.push_str(&format!(
                            "\n#[verus_verify]\nimpl Clone for {name} {{\n#[verus_spec(r => ensures r == *self)]\nfn clone(&self) -> Self {{ {body} }}\n}}\n"
                        ));
                    }
                }
                "Default" => {
                    if let DataKind::Named(fs) = data {
                        o.note("derive-expanded", format!("derive(Default) of {name} written out; every field's default must be None"), a.span().start().line);
                        tail.push_str(&format!(
                            "\n#[verus_verify]\nimpl {name} {{\n#[verus_spec(r => ensures {})]\npub fn default() -> Self {{ {name} {{ {} }} }}\n}}\n",
                            fs.iter().map(|f| format!("r.{f} is None")).collect::<Vec<_>>().join(", "),
                            fs.iter().map(|f| format!("{f}: None")).collect::<Vec<_>>().join(", ")
                        ));
                    }
                }
                _ => {}
            }
        }
        let r = o.src.range(a.span());
        if keep.is_empty() {
            o.rep(r, "");
        } else {
            o.rep(r, format!("#[derive({})]", keep.join(", ")));
        }
    }
}

/// derive(PartialEq) written out field by field and verified.  The contract's last parameters name
/// the fields whose comparison is not modelled: they stand for the result of comparing these.
fn derived_eq(s: &syn::ItemStruct, name: &str, ctx: &mut Ctx, o: &mut Out, tail: &mut String) {
    let key = format!("derived PartialEq of {name}");
    let Some(c) = ctx.fc.fns.get(&key) else { return };
    let derives = s.attrs.iter().any(|a| a.path().is_ident("derive") && {
        let mut found = false;
        let _ = a.parse_nested_meta(|m| {
            found |= m.path.segments.last().unwrap().ident == "PartialEq";
            Ok(())
        });
        found
    });
    let DataKind::Named(fs) = fields_kind(&s.fields) else { return };
    if !derives || !c.params[2..].iter().all(|p| fs.iter().any(|f| p == &format!("{f}_eq"))) {
        return;
    }
    ctx.used.insert(key.clone());
    let skipped = ctx.skip.contains(&format!("{}|{}", o.file, key));
    let line = s.ident.span().start().line;
    o.note("derive-expanded", format!("derive(PartialEq) of {name} written out field by field"), line);
    let body: Vec<String> = fs
        .iter()
        .map(|f| if c.params.contains(&format!("{f}_eq")) { format!("{f}_eq") } else { format!("self.{f} == other.{f}") })
        .collect();
    let extra: String = c.params[2..].iter().map(|p| format!(", {p}: bool")).collect();
    tail.push_str(&format!(
        "\n#[verus_verify]\nimpl {name} {{\n{}/*@fn {key}*/\n#[verus_spec({} =>\n{})]\npub fn vx_derived_eq(&self, other: &{name}{extra}) -> bool {{\nproof!{{\n{}\n}}\n{}\n}}\n/*@endfn*/\n}}\n",
        if skipped { "#[verifier::external_body]\n" } else { "" },
        c.ret.clone().unwrap_or("r".into()),
        probe(&o.file, &key, c.spec.clone()),
        c.entry,
        body.join(" && ")
    ));
    ctx.functions.push(json!({
        "fn": key, "file": o.file, "line": line, "end_line": s.span().end().line, "tags": c.tags, "external_body": false,
        "skipped": skipped, "problems": Vec::<String>::new(), "name": "vx_derived_eq",
    }));
}

enum DataKind {
    Named(Vec<String>),
    Tuple(usize),
    Other,
}

fn fields_kind(f: &syn::Fields) -> DataKind {
    match f {
        syn::Fields::Named(n) => DataKind::Named(n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect()),
        syn::Fields::Unnamed(u) => DataKind::Tuple(u.unnamed.len()),
        syn::Fields::Unit => DataKind::Other,
    }
}

/// rewrites inside a function body
struct BodyRw<'a, 'b, 'c> {
    o: &'b mut Out<'a>,
    c: &'c FnC,
    path_map: &'c [(String, String)],
    loops: usize,
    closures: usize,
    consts: &'c consts::Consts,
    ctx_ty: Option<String>,
    err: Vec<String>,
    fn_params: BTreeMap<String, String>,
    /// closures nothing is said about
    loose: usize,
    /// functions (`f`) and methods (`.f`) called
    calls: BTreeSet<String>,
}

impl<'a, 'b, 'c, 'ast> Visit<'ast> for BodyRw<'a, 'b, 'c> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let r = self.o.src.range(m.span());
        let args = split_args(m.tokens.clone());
        match name.as_str() {
            "assert_eq" | "debug_assert_eq" | "assert_ne" if args.len() >= 2 => {
                let op = if name == "assert_ne" { "!=" } else { "==" };
                let t = format!("assert!(({}) {} ({}))", args[0], op, args[1]);
                self.o.note("assert-message", format!("{name}! -> assert!"), m.span().start().line);
                self.o.rep(r, t);
            }
            "assert" | "debug_assert" if !args.is_empty() => {
                let t = format!("assert!({})", args[0]);
                self.o.rep(r, t);
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.o.rep(r, "panic!()".to_string());
            }
            _ => {}
        }
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        for (i, p) in c.inputs.iter().enumerate() {
            if let syn::Pat::Wild(w) = p {
                let r = self.o.src.range(w.span());
                self.o.rep(r, format!("_vx{i}"));
            }
        }
        if let Some(cc) = self.c.closures.get(&n) {
            // annotate: contract + typed parameter
            let mut map = self.fn_params.clone();
            let ps: Vec<String> = c
                .inputs
                .iter()
                .map(|p| match p {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                    _ => "_".into(),
                })
                .collect();
            for (i, want) in cc.params.iter().enumerate() {
                if let Some(have) = ps.get(i) {
                    map.insert(want.clone(), have.clone());
                }
            }
            let spec = rename(&cc.spec, &map);
            let at = self.o.src.off(c.span().start());
            self.o.ins(at, format!("#[verus_spec({})] ", spec.trim()));
            // give untyped parameters the declared type
            for (i, p) in c.inputs.iter().enumerate() {
                if let syn::Pat::Ident(id) = p {
                    if let Some(Some(ty)) = cc.types.get(i) {
                        let e = self.o.src.off(id.span().end());
                        self.o.ins(e, format!(": {ty}"));
                    }
                }
            }
        }
        if !self.c.closures.contains_key(&n) {
            self.loose += 1;
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let n = self.loops;
        self.loops += 1;
        if let Some(t) = self.c.loops.get(&n) {
            let mut map = self.fn_params.clone();
            if let (syn::Pat::Ident(i), Some(v)) = (&*l.pat, &t.var) {
                map.insert(v.clone(), i.ident.to_string());
            }
            let mut range = &*l.expr;
            while let syn::Expr::Paren(p) = range {
                range = &p.expr;
            }
            let counts = matches!(range, syn::Expr::Range(_));
            let spec = match counts && !t.alt.is_empty() {
                true => format!("it =>\n{}", rename(&t.alt, &map).replace("vx_i", "(it.index@ as int)")),
                false => rename(&t.spec, &map),
            };
            let at = self.o.src.off(l.span().start());
            self.o.ins(at, format!("#[verus_spec({})]\n", spec.trim()));
        } else {
            self.err.push(format!("loop without invariant at line {}", l.span().start().line));
        }
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let n = self.loops;
        self.loops += 1;
        // while i < n, while i != n
        let counter = match &*l.cond {
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::Lt(_) | syn::BinOp::Ne(_)) => match &*b.left {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| (i.to_string(), b.right.to_token_stream().to_string())),
                _ => None,
            },
            _ => None,
        };
        match (self.c.loops.get(&n), counter) {
            (Some(t), Some((i, end))) if !t.alt.is_empty() => {
                let spec = rename(&t.alt, &self.fn_params).replace("vx_i", &format!("({i} as int)"));
                let at = self.o.src.off(l.span().start());
                self.o.ins(at, format!("#[verus_spec({}\ndecreases ({end}) - {i})]\n", spec.trim()));
            }
            (Some(t), _) if t.alt.is_empty() => {
                let at = self.o.src.off(l.span().start());
                self.o.ins(at, format!("#[verus_spec({})]\n", rename(&t.spec, &self.fn_params).trim()));
            }
            _ => self.err.push(format!("loop without invariant at line {}", l.span().start().line)),
        }
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.err.push(format!("loop without invariant at line {}", l.span().start().line));
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        // constants are not patterns we rewrite
        let _ = p;
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        // a constant under casts, `C as u32`: one literal of the final type
        if let syn::Expr::Cast(c) = e {
            let mut inner = &*c.expr;
            loop {
                inner = match inner {
                    syn::Expr::Cast(c) => &c.expr,
                    syn::Expr::Paren(p) => &p.expr,
                    _ => break,
                };
            }
            let is_const = matches!(inner, syn::Expr::Path(p) if p.qself.is_none()
                && self.consts.lookup(&p.path, self.ctx_ty.as_deref()).is_some());
            if is_const {
                if let (Some(v), syn::Type::Path(t)) = (self.consts.eval(e, self.ctx_ty.as_deref()), &*c.ty) {
                    let r = self.o.src.range(e.span());
                    self.o.rep(r, consts::Consts::literal(&consts::Const { ty: t.to_token_stream().to_string(), val: v }));
                    return;
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            let t = p.to_token_stream().to_string().replace(' ', "");
            if let Some((_, b)) = self.path_map.iter().find(|(a, _)| *a == t) {
                let r = self.o.src.range(e.span());
                self.o.note("path", format!("{t} -> {b}"), e.span().start().line);
                self.o.rep(r, b.clone());
                return;
            }
            if p.qself.is_none() {
                if let Some(c) = self.consts.lookup(&p.path, self.ctx_ty.as_deref()) {
                    let r = self.o.src.range(e.span());
                    self.o.rep(r, consts::Consts::literal(&c));
                    return;
                }
            }
        }
        syn::visit::visit_expr(self, e);
    }
}

pub fn split_args(ts: TokenStream) -> Vec<String> {
    let mut out = vec![];
    let mut cur = TokenStream::new();
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(cur.to_string());
                cur = TokenStream::new();
                continue;
            }
        }
        cur.extend([t]);
    }
    if !cur.is_empty() {
        out.push(cur.to_string());
    }
    out
}

/// the facts about the standard library (vshadow::stdx) a body may need
fn std_facts(body: TokenStream) -> String {
    fn ids(ts: TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                TokenTree::Group(g) => ids(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut s = BTreeSet::new();
    ids(body.clone(), &mut s);
    let mut out = String::new();
    if s.contains("Ordering") {
        out.push_str("crate::vshadow::stdx::ord_facts();");
    }
    let prims = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
    let text = body.to_string().replace(' ', "");
    if s.contains("into") || prims.iter().any(|p| text.contains(&format!("{p}::from("))) {
        out.push_str("crate::vshadow::stdx::conv_facts();crate::vshadow::stdx::bool_facts();");
    }
    out
}

/// Vacuity probe (VEX_PROBE="file|function"): the function is asked to ensure `false`, which must
/// not be provable.
fn probe(file: &str, key: &str, spec: String) -> String {
    if std::env::var("VEX_PROBE").ok().as_deref() != Some(&format!("{file}|{key}")) {
        return spec;
    }
    let mut at = None;
    let mut prev = ' ';
    for (i, c) in spec.char_indices() {
        if spec[i..].starts_with("ensures") && !prev.is_alphanumeric() && prev != '_' && prev != '.' {
            at = Some(i + "ensures".len());
            break;
        }
        prev = c;
    }
    match at {
        Some(i) => format!("{} false, {}", &spec[..i], &spec[i..]),
        None => format!("{spec}\nensures false"),
    }
}

pub fn sig_params(sig: &syn::Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Receiver(_) => None,
            syn::FnArg::Typed(t) => Some(match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                _ => "_".to_string(),
            }),
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn do_fn(
    key: &str,
    attrs: &[syn::Attribute],
    vis: Option<&syn::Visibility>,
    sig: &syn::Signature,
    body: Option<&syn::Block>,
    whole: Span,
    ctx: &mut Ctx,
    o: &mut Out,
    ctx_ty: Option<String>,
) {
    let line = sig.ident.span().start().line;
    let start = start_of(attrs, whole, o.src);
    if has_cfg_test(attrs) {
        let e = o.src.off(whole.end());
        o.rep((start, e), "");
        return;
    }
    if ctx.fc.drop.contains(key) {
        ctx.used.insert(key.to_string());
        let e = o.src.off(whole.end());
        o.rep((start, e), "");
        o.note("dropped", key, line);
        return;
    }
    let Some(c) = ctx.fc.fns.get(key) else {
        ctx.uncontracted.push(json!({"fn": key, "file": o.file, "line": line}));
        // not verified: keep out of the verifier's sight
        let e = o.src.off(whole.end());
        o.rep((start, e), "");
        o.note("dropped", key, line);
        return;
    };
    ctx.used.insert(key.to_string());
    let ps = sig_params(sig);
    let mut map = BTreeMap::new();
    if ps.len() != c.params.len() {
        ctx.missing_params.push(format!("{key}: contract has {} parameters, source has {}", c.params.len(), ps.len()));
        return;
    }
    for (w, h) in c.params.iter().zip(ps.iter()) {
        if w != h {
            map.insert(w.clone(), h.clone());
        }
    }
    for (i, t) in c.ptypes.iter().enumerate() {
        let _ = (i, t);
    }
    let spec = rename(&c.spec, &map);
    let mut at = start;
    // doc comments stay before the attribute
    for a in attrs {
        at = at.max(o.src.off(a.span().end()));
    }
    if at != start {
        // after the last attribute
    } else {
        at = start;
    }
    let mut head = String::new();
    for x in &c.attrs {
        head.push_str(&format!("\n{x}\n"));
    }
    if c.external_body || ctx.skip.contains(&format!("{}|{}", o.file, key)) {
        head.push_str("\n#[verifier::external_body]\n");
    }
    // a function of a `@retrait` impl has its postcondition in the trait: probed at its entry
    let at_entry = ctx.fc.retrait.keys().any(|k| key.starts_with(&format!("{k}::")));
    let spec = if at_entry { spec } else { probe(&o.file, key, spec) };
    let ret = c.ret.clone().map(|r| format!("{r} =>\n")).unwrap_or_default();
    head.push_str(&format!("\n/*@fn {key}*/\n#[verus_spec({}{})]\n", ret, spec));
    o.ins(at, head);
    o.ins(o.src.off(whole.end()), "\n/*@endfn*/\n");
    let skipped = ctx.skip.contains(&format!("{}|{}", o.file, key));
    if let Some(v) = vis {
        let before = match v {
            syn::Visibility::Inherited => o.src.off(sig.span().start()),
            _ => 0,
        };
        // `const fn`, `unsafe fn` and so on begin the signature
        make_pub(v, before, o);
    }
    if let Some(lt) = &c.sigfix {
        let r = o.src.range(sig.span());
        let t = o.src.slice(sig.span()).to_string();
        let mut t2 = t.clone();
        for (a, b) in lt {
            t2 = t2.replace(a, b);
        }
        if t2 != t {
            o.note("signature", format!("{key}: {t} -> {t2}"), line);
            o.rep(r, t2);
        }
    }
    let mut errs = vec![];
    let mut loose = 0;
    let mut calls = BTreeSet::new();
    if let Some(b) = body {
        let br = o.src.range(b.span());
        if c.external_body || skipped {
            o.rep(br, "{ unimplemented!() }");
            o.note("external-body", key, line);
        } else {
            if !c.entry.trim().is_empty() {
                let p = if at_entry && !probe(&o.file, key, String::new()).is_empty() { "\nassert(false); // ensures false" } else { "" };
                o.ins(br.0 + 1, format!("\nproof!{{\n{}{p}\n}}\n", rename(&c.entry, &map)));
            }
            let facts = std_facts(b.to_token_stream());
            if !facts.is_empty() {
                o.ins(br.0 + 1, format!("proof!{{ {facts} }}"));
            }
            let mut rw = BodyRw {
                o,
                c,
                path_map: &ctx.fc.path_map,
                loops: 0,
                closures: 0,
                consts: ctx.consts,
                ctx_ty: ctx_ty.clone(),
                err: vec![],
                fn_params: map.clone(),
                loose: 0,
                calls: BTreeSet::new(),
            };
            rw.visit_block(b);
            errs = rw.err;
            loose = rw.loose;
            calls = rw.calls;
        }
    }
    ctx.functions.push(json!({
        "fn": key, "file": o.file, "line": line, "end_line": whole.end().line,
        "tags": c.tags, "external_body": c.external_body, "skipped": skipped, "problems": errs,
        "name": sig.ident.to_string(), "declaration": body.is_none(),
        "loose_closures": loose, "calls": calls,
    }));
}

fn do_items(items: &[syn::Item], ctx: &mut Ctx, o: &mut Out, tail: &mut String) {
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                let st = start_of(&m.attrs, m.span(), o.src);
                if has_cfg_test(&m.attrs) {
                    let e = o.src.off(m.span().end());
                    o.rep((st, e), "");
                    o.note("dropped", format!("mod {} (cfg(test))", m.ident), m.span().start().line);
                } else if m.content.is_none() {
                    if ctx.fc.drop.contains(&format!("mod {}", m.ident)) {
                        let e = o.src.off(m.span().end());
                        o.rep((st, e), "");
                        o.note("dropped", format!("mod {}", m.ident), m.span().start().line);
                    } else {
                        make_pub(&m.vis, o.src.off(m.span().start()), o);
                    }
                } else if let Some((_, items)) = &m.content {
                    do_items(items, ctx, o, tail);
                }
            }
            syn::Item::Use(u) => {
                // one `use` per leaf, without the ones that lead out of the verified part
                let mut leaves = vec![];
                use_leaves(&u.tree, String::new(), &mut leaves);
                let n = leaves.len();
                leaves.retain(|t| !ctx.fc.drop_use.iter().any(|d| t == d || t.starts_with(&format!("{d}::")) || t.starts_with(&format!("{d} as"))));
                if leaves.len() != n {
                    o.note("dropped", format!("use (in {})", u.tree.to_token_stream().to_string().replace(' ', "")), u.span().start().line);
                    let vis = u.vis.to_token_stream().to_string();
                    let r = o.src.range(u.span());
                    o.rep(r, leaves.iter().map(|l| format!("{vis} use {l}; ")).collect::<String>());
                }
            }
            syn::Item::Const(c) => {
                let key = format!("const {}", c.ident);
                let st = start_of(&c.attrs, c.span(), o.src);
                if ctx.fc.drop.contains(&key) {
                    let e = o.src.off(c.span().end());
                    o.rep((st, e), "");
                    continue;
                }
                o.ins(st, "#[verus_verify]\n");
                make_pub(&c.vis, o.src.off(c.const_token.span().start()), o);
                if let Some(v) = ctx.consts.map.get(&c.ident.to_string()).cloned().flatten() {
                    tail.push_str(&format!("verus!{{ proof fn vx_const_{}() {{ assert({} == {}) by(compute); }} }}\n", c.ident.to_string().to_lowercase(), c.ident, v.val));
                }
            }
            syn::Item::Type(t) => make_pub(&t.vis, o.src.off(t.type_token.span().start()), o),
            syn::Item::Struct(s) => {
                let name = s.ident.to_string();
                let st = start_of(&s.attrs, s.span(), o.src);
                if ctx.fc.drop.contains(&name) {
                    let e = o.src.off(s.span().end());
                    o.rep((st, e), "");
                    continue;
                }
                o.ins(st, ctx.fc.type_attrs.get(&name).cloned().unwrap_or("#[verus_verify]\n".into()));
                do_derives(&s.attrs, &name, &s.generics, &fields_kind(&s.fields), o, ctx.fc, tail);
                derived_eq(s, &name, ctx, o, tail);
                make_pub(&s.vis, o.src.off(s.struct_token.span().start()), o);
                for f in s.fields.iter() {
                    let b = match &f.ident {
                        Some(i) => o.src.off(i.span().start()),
                        None => o.src.off(f.ty.span().start()),
                    };
                    make_pub(&f.vis, b, o);
                }
            }
            syn::Item::Enum(s) => {
                let name = s.ident.to_string();
                let st = start_of(&s.attrs, s.span(), o.src);
                if ctx.fc.drop.contains(&name) {
                    let e = o.src.off(s.span().end());
                    o.rep((st, e), "");
                    continue;
                }
                o.ins(st, "#[verus_verify]\n");
                do_derives(&s.attrs, &name, &s.generics, &DataKind::Other, o, ctx.fc, tail);
                make_pub(&s.vis, o.src.off(s.enum_token.span().start()), o);
                if ctx.fc.rank_enum.contains(&name) {
                    // derive(PartialOrd, Ord) orders the variants as declared
                    let arms: Vec<String> = s.variants.iter().enumerate().map(|(i, v)| format!("{name}::{} => {i}", v.ident)).collect();
                    tail.push_str(&format!(
                        "\nverus!{{ pub open spec fn rank_{}(p: {name}) -> int {{ match p {{ {} }} }} }}\n",
                        name.to_lowercase(),
                        arms.join(", ")
                    ));
                }
            }
            syn::Item::Fn(f) => {
                do_fn(&f.sig.ident.to_string(), &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), f.span(), ctx, o, None);
            }
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                let st = start_of(&t.attrs, t.span(), o.src);
                if ctx.fc.drop.contains(&format!("trait {name}")) || !ctx.fc.traits.contains_key(&name) {
                    let e = o.src.off(t.span().end());
                    o.rep((st, e), "");
                    o.note("dropped", format!("trait {name}"), t.span().start().line);
                    continue;
                }
                let tc = &ctx.fc.traits[&name];
                if t.items.iter().any(|i| matches!(i, syn::TraitItem::Const(_))) && !t.items.iter().any(|i| matches!(i, syn::TraitItem::Fn(_))) {
                    o.ins(st, "verus!{\n");
                    o.ins(o.src.off(t.span().end()), "\n}");
                } else {
                    o.ins(st, "#[verus_verify]\n");
                }
                make_pub(&t.vis, o.src.off(t.trait_token.span().start()), o);
                // extra supertraits + spec items
                let open = o.src.off(t.brace_token.span.open().start());
                if !tc.bounds.is_empty() {
                    let pre = if t.supertraits.is_empty() { ": " } else { " + " };
                    let at = if t.supertraits.is_empty() {
                        o.src.off(t.generics.span().end()).max(o.src.off(t.ident.span().end()))
                    } else {
                        o.src.off(t.supertraits.span().end())
                    };
                    o.ins(at, format!("{pre}{}", tc.bounds));
                }
                o.ins(open + 1, format!("\n{}\n", tc.items));
                for d in &t.items {
                    if let syn::TraitItem::Fn(f) = d {
                        do_fn(&format!("trait {name}::{}", f.sig.ident), &f.attrs, None, &f.sig, f.default.as_ref(), f.span(), ctx, o, None);
                    }
                }
            }
            syn::Item::Impl(im) if has_cfg_test(&im.attrs) => {
                let st = start_of(&im.attrs, im.span(), o.src);
                let e = o.src.off(im.span().end());
                o.rep((st, e), "");
                o.note("dropped", "impl (cfg)".to_string(), im.span().start().line);
            }
            syn::Item::Impl(im) => do_impl(im, ctx, o, tail),
            syn::Item::Macro(m) => {
                let r = o.src.range(m.span());
                let st = start_of(&m.attrs, m.span(), o.src);
                let key = match &m.ident {
                    Some(i) => format!("macro {i}"),
                    None => format!("macro {}", m.mac.path.segments.last().unwrap().ident),
                };
                if let Some(tags) = trait_impl_macro(items, &key, ctx.fc) {
                    let skipped = ctx.skip.contains(&format!("{}|{}", o.file, key));
                    if !skipped {
                        if m.ident.is_some() {
                            // the impls this macro writes are checked against the trait's contract
                            mark_impls(m.mac.tokens.clone(), o);
                            o.ins(st, format!("/*@fn {key}*/\n"));
                            o.ins(r.1, "\n/*@endfn*/\n");
                        }
                        continue_with(&key, m, tags, false, ctx, o);
                        continue;
                    }
                    continue_with(&key, m, tags, true, ctx, o);
                }
                o.rep((st, r.1), "");
                o.note("dropped", "item macro".to_string(), m.span().start().line);
            }
            _ => {}
        }
    }
}

/// the property tags of a macro that writes impls of a `@trait_impls` trait
fn trait_impl_macro(items: &[syn::Item], key: &str, fc: &FileC) -> Option<Vec<String>> {
    let def = items.iter().find_map(|i| match i {
        syn::Item::Macro(m) if m.ident.as_ref().map(|i| format!("macro {i}")).as_deref() == Some(key) => Some(m),
        _ => None,
    })?;
    fn has(ts: TokenStream, fc: &FileC) -> Option<Vec<String>> {
        let ts: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in ts.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    if let Some(r) = has(g.stream(), fc) {
                        return Some(r);
                    }
                }
                TokenTree::Ident(id) if id == "impl" => {
                    if let Some(TokenTree::Ident(n)) = ts.get(i + 1) {
                        if let Some(t) = fc.trait_impls.get(&n.to_string()) {
                            return Some(t.clone());
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    has(def.mac.tokens.clone(), fc)
}

fn mark_impls(ts: TokenStream, o: &mut Out) {
    for t in ts {
        match t {
            TokenTree::Group(g) => mark_impls(g.stream(), o),
            TokenTree::Ident(id) if id == "impl" => {
                let at = o.src.off(id.span().start());
                o.ins(at, "#[verus_verify]\n");
            }
            _ => {}
        }
    }
}

fn continue_with(key: &str, m: &syn::ItemMacro, tags: Vec<String>, skipped: bool, ctx: &mut Ctx, o: &mut Out) {
    if m.ident.is_some() {
        ctx.functions.push(json!({
            "fn": key, "file": o.file, "line": m.span().start().line, "end_line": m.span().end().line,
            "tags": tags, "external_body": false, "skipped": skipped, "problems": [], "name": key,
        }));
    }
}

fn do_impl(im: &syn::ItemImpl, ctx: &mut Ctx, o: &mut Out, tail: &mut String) {
    let ty = type_name(&im.self_ty);
    let st = start_of(&im.attrs, im.span(), o.src);
    let end = o.src.off(im.span().end());
    let line = im.span().start().line;
    let tkey = im.trait_.as_ref().map(|(_, p, _)| trait_key(p));
    let prefix = match &tkey {
        None => ty.clone(),
        Some(t) => format!("{t} for {ty}"),
    };
    if ctx.fc.mono.contains_key(&prefix) {
        do_mono(im, &prefix, ctx, o, tail);
        return;
    }
    if let Some(l) = ctx.fc.lift.get(&prefix) {
        // a trait impl whose methods are verified as inherent ones under a new name
        ctx.used.insert(prefix.clone());
        let gen = im.generics.clone();
        let (g, _, w) = gen.split_for_impl();
        let open = o.src.off(im.brace_token.span.open().start());
        let s0 = o.src.off(im.impl_token.span().start());
        o.rep((s0, open), format!("#[verus_verify]\nimpl{} {}{} ", g.to_token_stream(), im.self_ty.to_token_stream(), w.to_token_stream()));
        o.note("lifted", prefix.clone(), line);
        for d in &im.items {
            match d {
                syn::ImplItem::Fn(f) => {
                    do_fn(&format!("{prefix}::{}", f.sig.ident), &f.attrs, None, &f.sig, Some(&f.block), f.span(), ctx, o, Some(ty.clone()));
                    let r = o.src.range(f.sig.ident.span());
                    o.rep(r, format!("{}{}", l.prefix, f.sig.ident));
                    let at = o.src.off(f.sig.fn_token.span().start());
                    o.ins(at, "pub ");
                }
                other => {
                    let r = o.src.range(other.span());
                    o.rep(r, "");
                }
            }
        }
        return;
    }
    if let Some(t) = ctx.fc.retrait.get(&prefix) {
        // the same impl, of a trait whose methods may have preconditions
        ctx.used.insert(prefix.clone());
        let (_, path, _) = im.trait_.as_ref().unwrap();
        let seg = path.segments.last().unwrap();
        let r = (o.src.off(path.span().start()), o.src.off(seg.ident.span().end()));
        o.rep(r, t.bounds.clone());
        let open = o.src.off(im.brace_token.span.open().start());
        o.ins(open + 1, format!("\n{}\n", t.items));
        o.note("lifted", prefix.clone(), line);
    }
    if let Some(tags) = im.trait_.as_ref().and_then(|(_, p, _)| ctx.fc.trait_impls.get(&p.segments.last().unwrap().ident.to_string())) {
        // checked against the contract of the trait's declaration
        o.ins(st, "#[verus_verify]\n");
        for d in &im.items {
            if let syn::ImplItem::Fn(f) = d {
                let key = format!("{prefix}::{}", f.sig.ident);
                let skipped = ctx.skip.contains(&format!("{}|{}", o.file, key));
                let at = start_of(&f.attrs, f.span(), o.src);
                o.ins(at, format!("/*@fn {key}*/\n{}", if skipped { "#[verifier::external_body]\n" } else { "" }));
                o.ins(o.src.off(f.span().end()), "\n/*@endfn*/\n");
                let c = FnC::default();
                let mut errs = vec![];
                if skipped {
                    let br = o.src.range(f.block.span());
                    o.rep(br, "{ unimplemented!() }");
                } else {
                    let mut rw = BodyRw {
                        o, c: &c, path_map: &ctx.fc.path_map, loops: 0, closures: 0, consts: ctx.consts,
                        ctx_ty: Some(ty.clone()), err: vec![], fn_params: BTreeMap::new(),
                        loose: 0, calls: BTreeSet::new(),
                    };
                    rw.visit_block(&f.block);
                    errs = rw.err;
                }
                ctx.functions.push(json!({
                    "fn": key, "file": o.file, "line": f.span().start().line, "end_line": f.span().end().line,
                    "tags": tags, "external_body": false, "skipped": skipped, "problems": errs, "name": f.sig.ident.to_string(),
                }));
            }
        }
        return;
    }
    // does any function of this impl carry a contract?
    let any = im.items.iter().any(|d| match d {
        syn::ImplItem::Fn(f) => ctx.fc.fns.contains_key(&format!("{prefix}::{}", f.sig.ident)),
        _ => false,
    }) || ctx.fc.keep_impl.contains(&prefix);
    if tkey.is_some() && !any {
        // (`unwrap` and `expect` ask for it)
        let debug = tkey.as_deref() == Some("Debug") && im.generics.params.is_empty();
        let stub = format!(
            "verus!{{ impl core::fmt::Debug for {} {{ #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }} }}",
            im.self_ty.to_token_stream()
        );
        o.rep((st, end), if debug { stub } else { String::new() });
        o.note("dropped", format!("impl {prefix}"), line);
        for d in &im.items {
            if let syn::ImplItem::Fn(f) = d {
                ctx.uncontracted.push(json!({"fn": format!("{prefix}::{}", f.sig.ident), "file": o.file, "line": f.span().start().line}));
            }
        }
        return;
    }
    if tkey.is_some() && im.items.iter().any(|i| matches!(i, syn::ImplItem::Const(_))) && !im.items.iter().any(|i| matches!(i, syn::ImplItem::Fn(_))) {
        o.ins(st, "verus!{\n");
        o.ins(end, "\n}");
        return;
    }
    o.ins(st, "#[verus_verify]\n");
    for d in &im.items {
        match d {
            syn::ImplItem::Fn(f) => {
                let vis = if tkey.is_some() { None } else { Some(&f.vis) };
                do_fn(&format!("{prefix}::{}", f.sig.ident), &f.attrs, vis, &f.sig, Some(&f.block), f.span(), ctx, o, Some(ty.clone()));
            }
            syn::ImplItem::Const(c) => {
                if tkey.is_none() {
                    make_pub(&c.vis, o.src.off(c.const_token.span().start()), o);
                    if let Some(v) = ctx.consts.map.get(&format!("{ty}::{}", c.ident)).cloned().flatten() {
                        tail.push_str(&format!("verus!{{ proof fn vx_const_{}_{}() {{ assert({ty}::{} == {}) by(compute); }} }}\n", ty.to_lowercase(), c.ident.to_string().to_lowercase(), c.ident, v.val));
                    }
                }
            }
            _ => {}
        }
    }
}

/// blanket `impl<T, Q> Trait<Q> for T` written out for concrete types: the body is the source
/// text with the type parameters replaced, which is what monomorphisation compiles.
fn do_mono(im: &syn::ItemImpl, prefix: &str, ctx: &mut Ctx, o: &mut Out, tail: &mut String) {
    let st = start_of(&im.attrs, im.span(), o.src);
    let end = o.src.off(im.span().end());
    let gens: Vec<String> = im.generics.type_params().map(|p| p.ident.to_string()).collect();
    o.rep((st, end), "");
    o.note("monomorphised", prefix.to_string(), im.span().start().line);
    ctx.used.insert(prefix.to_string());
    let insts = ctx.fc.mono[prefix].clone();
    for inst in insts {
        let map: BTreeMap<String, String> = gens.iter().cloned().zip(inst.iter().cloned()).collect();
        let (_, tr, _) = im.trait_.as_ref().unwrap();
        tail.push_str(&format!(
            "\n#[verus_verify]\nimpl {} for {} {{\n",
            rename(&tr.to_token_stream().to_string(), &map),
            rename(&im.self_ty.to_token_stream().to_string(), &map)
        ));
        for d in &im.items {
            match d {
                syn::ImplItem::Fn(f) => {
                    let key = format!("{prefix}::{}", f.sig.ident);
                    let Some(c) = ctx.fc.fns.get(&key) else {
                        ctx.missing_params.push(format!("{key}: no contract for a method of a monomorphised impl"));
                        continue;
                    };
                    ctx.used.insert(key.clone());
                    let ps = sig_params(&f.sig);
                    let mut pm = BTreeMap::new();
                    for (w, h) in c.params.iter().zip(ps.iter()) {
                        if w != h {
                            pm.insert(w.clone(), h.clone());
                        }
                    }
                    let ret = c.ret.clone().map(|r| format!("{r} =>\n")).unwrap_or_default();
                    let key_i = format!("{key} [{}]", inst.join(","));
                    let skipped = ctx.skip.contains(&format!("{}|{}", o.file, key_i));
                    tail.push_str(&format!("/*@fn {key_i}*/\n{}#[verus_spec({}{})]\n", if skipped { "#[verifier::external_body]\n" } else { "" }, ret, probe(&o.file, &key_i, rename(&rename(&c.spec, &pm), &map))));
                    let sub = Src::new(o.src.slice(f.block.span()).to_string());
                    let _ = &sub;
                    let sig = rename(o.src.slice(f.sig.span()), &map);
                    let body = rename(&inline::strip_messages(&f.block, o.src), &map);
                    let body = if c.entry.trim().is_empty() {
                        body
                    } else {
                        format!("{{ proof!{{ {} }}\n{}", rename(&rename(&c.entry, &pm), &map), &body[1..])
                    };
                    let body = if skipped { "{ unimplemented!() }".to_string() } else { body };
                    tail.push_str(&format!("{sig}\n{body}\n/*@endfn*/\n"));
                    ctx.functions.push(json!({
                        "fn": format!("{key} [{}]", inst.join(",")), "file": o.file, "line": f.span().start().line,
                        "end_line": f.span().end().line, "tags": c.tags, "external_body": false, "skipped": skipped, "problems": [],
                        "name": f.sig.ident.to_string(),
                    }));
                }
                other => {
                    tail.push_str(&rename(o.src.slice(other.span()), &map));
                    tail.push('\n');
                }
            }
        }
        tail.push_str("}\n");
    }
}

/// `Hash` has no counterpart in the overlay: written as `Sized`
struct HashBounds<'a, 'b> {
    o: &'b mut Out<'a>,
}
impl<'a, 'b, 'ast> Visit<'ast> for HashBounds<'a, 'b> {
    fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
        if b.path.segments.last().map(|s| s.ident == "Hash").unwrap_or(false) {
            let r = self.o.src.range(b.path.span());
            self.o.rep(r, "Sized");
            self.o.note("bound", "Hash -> Sized", b.path.span().start().line);
        }
    }
    fn visit_block(&mut self, _: &'ast syn::Block) {}
}

fn use_leaves(t: &syn::UseTree, pre: String, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => use_leaves(&p.tree, format!("{pre}{}::", p.ident), out),
        syn::UseTree::Name(n) => out.push(if n.ident == "self" { pre.trim_end_matches(':').to_string() } else { format!("{pre}{}", n.ident) }),
        syn::UseTree::Rename(r) => out.push(format!("{pre}{} as {}", r.ident, r.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{pre}*")),
        syn::UseTree::Group(g) => g.items.iter().for_each(|i| use_leaves(i, pre.clone(), out)),
    }
}

fn collect_mods(dir: &Path, base: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(dir).map(|r| r.filter_map(|e| e.ok()).collect()).unwrap_or_default();
    es.sort_by_key(|e| e.path());
    for e in es {
        let p = e.path();
        if p.is_dir() {
            collect_mods(&p, base, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p.strip_prefix(base).unwrap().to_path_buf());
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vex <repo> <contracts> <out> [<file|function to skip>...]");
        std::process::exit(2);
    }
    let skip: BTreeSet<String> = a[4..].iter().cloned().collect();
    let (repo, cdir, out) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]), PathBuf::from(&a[3]));
    let cs: Contracts = contract::load(&cdir);
    let mut functions = vec![];
    let mut log = vec![];
    let mut missing: Vec<String> = vec![];
    let mut uncontracted = vec![];
    let mut spec_items: Vec<String> = vec![];
    fs::create_dir_all(&out).unwrap();
    // helpers: every function of the crate without a contract
    let mut parsed = BTreeMap::new();
    let mut files = vec![];
    collect_mods(&repo.join("src"), &repo, &mut files);
    for rel in &files {
        let text = fs::read_to_string(repo.join(rel)).unwrap();
        match syn::parse_file(&text) {
            Ok(f) => {
                parsed.insert(rel.to_string_lossy().to_string(), (Src::new(text), f));
            }
            Err(e) => missing.push(format!("{}: does not parse: {e}", rel.display())),
        }
    }
    let inlined = inline::expand(&mut parsed, &cs);
    for (file, helper, line) in inlined {
        log.push(json!({"file": file, "line": line, "kind": "inlined", "what": helper}));
    }
    let consts = consts::Consts::collect(parsed.values().map(|p| &p.1));
    for (rel, fc) in &cs.files {
        let mut fc = fc.clone();
        let mut codec_trouble = None;
        if fc.codec {
            let skipped = ["pack0", "unpack0", "encode_precision", "decode_precision"]
                .iter()
                .any(|f| skip.contains(&format!("{rel}|DateTime::{f}")));
            let gen = match parsed.get(rel) {
                _ if skipped => Err("its text is outside what Verus accepts".to_string()),
                Some((src, file)) => codec::generate(file, src, &consts),
                None => Err("no such file".to_string()),
            };
            match gen {
                Ok(c) => {
                    fc.fns.get_mut("DateTime::pack0").unwrap().entry = c.pack_entry;
                    fc.fns.get_mut("DateTime::unpack0").unwrap().entry = c.unpack_entry;
                    fc.append.push_str(&c.append);
                }
                Err(e) => {
                    // the layout becomes an uninterpreted one that packing and unpacking are assumed to agree on
                    for f in ["pack0", "unpack0"] {
                        fc.fns.get_mut(&format!("DateTime::{f}")).unwrap().external_body = true;
                    }
                    for f in ["encode_precision", "decode_precision"] {
                        fc.fns.remove(&format!("DateTime::{f}"));
                    }
                    fc.append.push_str("verus!{\npub uninterp spec fn unp(w0: u64) -> (Precision, GregorianNormalizedDate, int, int);\n\
                        pub broadcast proof fn unp_range(w0: u64)\n ensures 0 <= (#[trigger] unp(w0)).3 <= 0x7FFF0000, unp(w0).3 % 65536 == 0, \
                        0 <= unp(w0).2 <= 131071, -6 <= unp(w0).1.cycle <= 25\n{ admit(); }\n\
                        pub uninterp spec fn vx_pk(p: Precision, g: GregorianNormalizedDate, s: u32, n: u32) -> u64;\n}\n");
                    codec_trouble = Some(e);
                }
            }
        }
        let fc = &fc;
        let Some((src, file)) = parsed.get(rel) else {
            missing.push(format!("{rel}: file not found"));
            continue;
        };
        let mut o = Out { src, edits: vec![], log: vec![], file: rel.clone() };
        let mut ctx = Ctx { fc, used: BTreeSet::new(), missing_params: vec![], functions: vec![], uncontracted: vec![], consts: &consts, skip: &skip };
        let mut tail = String::new();
        for at in &file.attrs {
            let r = o.src.range(at.span());
            o.rep(r, "");
        }
        for it in &file.items {
            if let syn::Item::Trait(_) | syn::Item::Impl(_) = it {
                HashBounds { o: &mut o }.visit_item(it);
            }
        }
        do_items(&file.items, &mut ctx, &mut o, &mut tail);
        if let Some(e) = codec_trouble {
            o.note("external-body", format!("DateTime::pack0, DateTime::unpack0: {e}"), 0);
        }
        for k in fc.fns.keys() {
            if !ctx.used.contains(k) {
                missing.push(format!("{rel}: {k}"));
            }
        }
        missing.extend(ctx.missing_params.iter().map(|m| format!("{rel}: {m}")));
        functions.extend(ctx.functions);
        uncontracted.extend(ctx.uncontracted);
        log.extend(o.log.clone());
        let text = o.finish();
        let mut full = String::new();
        full.push_str(&fc.prelude);
        full.push_str(&text);
        full.push_str(&tail);
        full.push('\n');
        full.push_str(&fc.append);
        spec_items.push(fc.append.clone());
        let p = out.join(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, full).unwrap();
    }
    for (name, text) in &cs.extra {
        let p = out.join("src").join(name);
        fs::write(p, dep::expand(text, &repo, &mut log)).unwrap();
    }
    let rep = json!({
        "functions": functions, "edits": log, "missing": missing, "uncontracted": uncontracted,
    });
    fs::write(out.join("extraction.json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    println!("{} functions under contract, {} anchors missing", functions.len(), missing.len());
}
