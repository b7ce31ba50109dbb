//! The packed words of a DateTime.  `pack0` and `unpack0` are straight-line bit manipulation; this
//! evaluates their current source symbolically into one closed expression per packed field and
//! writes the proof that unpacking inverts packing, for the solver's bit-vector theory.  Nothing of
//! the layout is written down here: it is read off the two functions on every run.  The functions
//! themselves are verified against these expressions, so a mistake made here is a failed proof.
use crate::consts::Consts;
use crate::Src;
use std::collections::BTreeMap;
use syn::spanned::Spanned;

#[derive(Clone, Debug)]
enum Val {
    /// a machine integer: expression text and type
    E(String, Option<String>),
    Tuple(Vec<Val>),
    Struct(BTreeMap<String, Val>),
    /// a Precision: the text of the integer it is decoded from, or None for the parameter itself
    Prec(Option<Box<Val>>),
}

pub struct Codec {
    pub append: String,
    pub pack_entry: String,
    pub unpack_entry: String,
}

type Env = BTreeMap<String, Val>;

const FIELDS: [(&str, &str); 5] = [("cycle", "i8"), ("century", "u8"), ("quadrennium", "u8"), ("year", "u8"), ("day", "u16")];

struct Ev<'a> {
    fns: BTreeMap<String, (&'a syn::Signature, &'a syn::Block)>,
    consts: &'a Consts,
    src: &'a Src,
    enc: Option<(String, String)>,
    dec: Option<(String, String)>,
    masks: Vec<i128>,
    depth: usize,
}

type R<T> = Result<T, String>;

fn ty_text(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_text(&r.elem),
        _ => String::new(),
    }
}

impl<'a> Ev<'a> {
    fn int(&mut self, e: &syn::Expr, env: &Env) -> R<(String, Option<String>)> {
        match self.eval(e, env)? {
            Val::E(t, ty) => Ok((t, ty)),
            _ => Err("an integer was expected".into()),
        }
    }

    fn bind(&mut self, p: &syn::Pat, v: Val, env: &mut Env) -> R<()> {
        match (p, v) {
            (syn::Pat::Ident(i), v) if i.subpat.is_none() => {
                env.insert(i.ident.to_string(), v);
                Ok(())
            }
            (syn::Pat::Type(t), Val::E(x, _)) => {
                let ty = ty_text(&t.ty);
                self.bind(&t.pat, Val::E(x, Some(ty)), env)
            }
            (syn::Pat::Type(t), v) => self.bind(&t.pat, v, env),
            (syn::Pat::Wild(_), _) => Ok(()),
            (syn::Pat::Tuple(t), Val::Tuple(vs)) if t.elems.len() == vs.len() => {
                for (p, v) in t.elems.iter().zip(vs) {
                    self.bind(p, v, env)?;
                }
                Ok(())
            }
            (syn::Pat::Struct(s), Val::Struct(m)) => {
                for f in &s.fields {
                    let syn::Member::Named(n) = &f.member else { return Err("pattern".into()) };
                    let v = m.get(&n.to_string()).cloned().ok_or("field")?;
                    self.bind(&f.pat, v, env)?;
                }
                Ok(())
            }
            _ => Err("pattern is not supported".into()),
        }
    }

    fn block(&mut self, b: &syn::Block, env: &Env) -> R<Val> {
        let mut env = env.clone();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without a value")?;
                    if init.diverge.is_some() {
                        return Err("let else".into());
                    }
                    let v = self.eval(&init.expr, &env)?;
                    self.bind(&l.pat, v, &mut env)?;
                }
                syn::Stmt::Expr(e, None) if i + 1 == n => return self.eval(e, &env),
                syn::Stmt::Expr(syn::Expr::Return(r), _) if i + 1 == n => {
                    return self.eval(r.expr.as_ref().ok_or("return")?, &env)
                }
                // compound assignment to a local
                syn::Stmt::Expr(syn::Expr::Binary(b), Some(_)) => {
                    let op = match b.op {
                        syn::BinOp::BitOrAssign(_) => "|",
                        syn::BinOp::BitAndAssign(_) => "&",
                        syn::BinOp::ShlAssign(_) => "<<",
                        syn::BinOp::ShrAssign(_) => ">>",
                        _ => return Err("statement".into()),
                    };
                    let syn::Expr::Path(p) = &*b.left else { return Err("assignment".into()) };
                    let name = p.path.get_ident().ok_or("assignment")?.to_string();
                    let Some(Val::E(l, ty)) = env.get(&name).cloned() else { return Err("assignment".into()) };
                    let (r, _) = self.int(&b.right, &env)?;
                    env.insert(name, Val::E(format!("({l} {op} {r})"), ty));
                }
                syn::Stmt::Expr(syn::Expr::Assign(a), Some(_)) => {
                    let syn::Expr::Path(p) = &*a.left else { return Err("assignment".into()) };
                    let name = p.path.get_ident().ok_or("assignment")?.to_string();
                    let v = self.eval(&a.right, &env)?;
                    if !env.contains_key(&name) {
                        return Err("assignment".into());
                    }
                    env.insert(name, v);
                }
                // assertions have no effect on the value; the function itself is verified
                syn::Stmt::Macro(m) if m.mac.path.segments.last().map(|s| s.ident.to_string().contains("assert")).unwrap_or(false) => {}
                syn::Stmt::Item(syn::Item::Const(c)) => {
                    let v = self.eval(&c.expr, &env)?;
                    let v = match v {
                        Val::E(t, _) => Val::E(t, Some(ty_text(&c.ty))),
                        v => v,
                    };
                    env.insert(c.ident.to_string(), v);
                }
                _ => return Err("statement is not straight-line code".into()),
            }
        }
        Err("no value".into())
    }

    fn eval(&mut self, e: &syn::Expr, env: &Env) -> R<Val> {
        Ok(match e {
            syn::Expr::Paren(p) => return self.eval(&p.expr, env),
            syn::Expr::Group(p) => return self.eval(&p.expr, env),
            syn::Expr::Reference(r) => return self.eval(&r.expr, env),
            syn::Expr::Block(b) if b.label.is_none() => return self.block(&b.block, env),
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => {
                    let v: i128 = i.base10_parse().map_err(|_| "literal")?;
                    let ty = if i.suffix().is_empty() { None } else { Some(i.suffix().to_string()) };
                    Val::E(format!("{v}{}", i.suffix()), ty)
                }
                _ => return Err("literal".into()),
            },
            syn::Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(v) = env.get(&i.to_string()) {
                        return Ok(v.clone());
                    }
                }
                let c = self.consts.lookup(&p.path, Some("DateTime")).ok_or("unknown name")?;
                Val::E(Consts::literal(&c), Some(c.ty))
            }
            syn::Expr::Cast(c) => {
                let (t, _) = self.int(&c.expr, env)?;
                let ty = ty_text(&c.ty);
                Val::E(format!("({t} as {ty})"), Some(ty))
            }
            syn::Expr::Unary(u) => {
                let (t, ty) = self.int(&u.expr, env)?;
                match u.op {
                    syn::UnOp::Not(_) => Val::E(format!("(!{t})"), ty),
                    syn::UnOp::Deref(_) => Val::E(t, ty),
                    _ => return Err("operator".into()),
                }
            }
            syn::Expr::Binary(b) => {
                let (l, lt) = self.int(&b.left, env)?;
                let (r, rt) = self.int(&b.right, env)?;
                let ty = lt.clone().or(rt);
                let arith = |op: &str| -> R<Val> {
                    let t = ty.clone().ok_or("type of an arithmetic operation")?;
                    Ok(Val::E(format!("(({l} {op} {r}) as {t})"), Some(t)))
                };
                match b.op {
                    syn::BinOp::BitAnd(_) => {
                        for s in [&b.left, &b.right] {
                            if let Some(m) = self.consts.eval(s, Some("DateTime")) {
                                self.masks.push(m);
                            }
                        }
                        Val::E(format!("({l} & {r})"), ty)
                    }
                    syn::BinOp::BitOr(_) => Val::E(format!("({l} | {r})"), ty),
                    syn::BinOp::BitXor(_) => Val::E(format!("({l} ^ {r})"), ty),
                    syn::BinOp::Shl(_) => Val::E(format!("({l} << {r})"), lt),
                    syn::BinOp::Shr(_) => Val::E(format!("({l} >> {r})"), lt),
                    syn::BinOp::Add(_) => arith("+")?,
                    syn::BinOp::Sub(_) => arith("-")?,
                    syn::BinOp::Mul(_) => arith("*")?,
                    syn::BinOp::Div(_) if ty.as_deref().map(|t| t.starts_with('u')).unwrap_or(false) => arith("/")?,
                    syn::BinOp::Rem(_) if ty.as_deref().map(|t| t.starts_with('u')).unwrap_or(false) => arith("%")?,
                    _ => return Err("operator".into()),
                }
            }
            syn::Expr::Field(f) => match (self.eval(&f.base, env)?, &f.member) {
                (Val::Struct(m), syn::Member::Named(n)) => m.get(&n.to_string()).cloned().ok_or("field")?,
                (Val::Tuple(v), syn::Member::Unnamed(i)) => v.get(i.index as usize).cloned().ok_or("field")?,
                _ => return Err("field".into()),
            },
            syn::Expr::Tuple(t) => Val::Tuple(t.elems.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?),
            syn::Expr::Struct(s) => {
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let mut m = BTreeMap::new();
                for f in &s.fields {
                    let syn::Member::Named(n) = &f.member else { return Err("field".into()) };
                    m.insert(n.to_string(), self.eval(&f.expr, env)?);
                }
                Val::Struct(m)
            }
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return Err("call".into()) };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last().unwrap().clone();
                let args: Vec<Val> = c.args.iter().map(|x| self.eval(x, env)).collect::<R<_>>()?;
                if segs.len() == 2 && segs[0] == "GregorianNormalizedDate" && name == "new" && args.len() == 5 {
                    return Ok(Val::Struct(FIELDS.iter().map(|f| f.0.to_string()).zip(args).collect()));
                }
                if segs.len() == 2 && name == "from" && args.len() == 1 && segs[0].starts_with(['u', 'i']) {
                    let Val::E(t, _) = &args[0] else { return Err("from".into()) };
                    return Ok(Val::E(format!("({t} as {})", segs[0]), Some(segs[0].clone())));
                }
                if segs.len() > 2 || (segs.len() == 2 && segs[0] != "Self" && segs[0] != "DateTime") {
                    return Err(format!("call of {name}"));
                }
                return self.call(&name, args);
            }
            _ => return Err("expression is not straight-line bit manipulation".into()),
        })
    }

    fn call(&mut self, name: &str, args: Vec<Val>) -> R<Val> {
        let (sig, body) = *self.fns.get(name).ok_or(format!("call of {name}"))?;
        if sig.inputs.len() != args.len() || self.depth > 8 {
            return Err(format!("call of {name}"));
        }
        let ret = match &sig.output {
            syn::ReturnType::Type(_, t) => ty_text(t),
            _ => return Err("no result".into()),
        };
        let sig_text = |s: &Self, n: &str| {
            let i: Vec<String> = sig.inputs.iter().map(|x| s.src.slice(x.span()).to_string()).collect();
            format!("pub open spec fn {n}({}) -> {ret} {}", i.join(", "), s.src.slice(body.span()))
        };
        if let [Val::Prec(p)] = &args[..] {
            if p.is_some() {
                return Err("a decoded precision is encoded again".into());
            }
            let t = sig_text(self, "vx_enc");
            if self.enc.as_ref().map(|e| e.0 != t).unwrap_or(false) {
                return Err("two encodings of a precision".into());
            }
            self.enc = Some((t, ret.clone()));
            return Ok(Val::E("vx_p".into(), Some(ret)));
        }
        if ret == "Precision" && args.len() == 1 {
            let t = sig_text(self, "vx_dec");
            if self.dec.as_ref().map(|e| e.0 != t).unwrap_or(false) {
                return Err("two decodings of a precision".into());
            }
            self.dec = Some((t, name.to_string()));
            return Ok(Val::Prec(Some(Box::new(args.into_iter().next().unwrap()))));
        }
        let mut env = Env::new();
        for (i, a) in sig.inputs.iter().zip(args) {
            let syn::FnArg::Typed(t) = i else { return Err("method".into()) };
            let a = match a {
                // evaluated with the parameter's type
                Val::E(x, _) => Val::E(x, Some(ty_text(&t.ty))),
                a => a,
            };
            self.bind(&t.pat, a, &mut env)?;
        }
        self.depth += 1;
        let r = self.block(body, &env);
        self.depth -= 1;
        match r? {
            Val::E(t, _) => Ok(Val::E(t, Some(ret))),
            v => Ok(v),
        }
    }
}

/// no shifts, casts and the like inside a spec function's literal: `1_u8` stays as it is
pub fn generate(file: &syn::File, src: &Src, consts: &Consts) -> R<Codec> {
    let mut fns = BTreeMap::new();
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => {
                fns.insert(f.sig.ident.to_string(), (&f.sig, &*f.block));
            }
            syn::Item::Impl(im) if im.trait_.is_none() && crate::type_name(&im.self_ty) == "DateTime" => {
                if im.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                    continue;
                }
                for d in &im.items {
                    if let syn::ImplItem::Fn(f) = d {
                        fns.insert(f.sig.ident.to_string(), (&f.sig, &f.block));
                    }
                }
            }
            _ => {}
        }
    }
    let mut ev = Ev { fns, consts, src, enc: None, dec: None, masks: vec![], depth: 0 };
    let (ps, pb) = *ev.fns.get("pack0").ok_or("no pack0")?;
    let (us, ub) = *ev.fns.get("unpack0").ok_or("no unpack0")?;
    let names = |s: &syn::Signature| crate::sig_params(s);
    let pn = names(ps);
    let un = names(us);
    if pn.len() != 4 || un.len() != 1 {
        return Err("signature".into());
    }
    // the symbols a packed word is made of
    let mut env = Env::new();
    env.insert(pn[0].clone(), Val::Prec(None));
    env.insert(pn[1].clone(), Val::Struct(FIELDS.iter().map(|(f, t)| (f.to_string(), Val::E(format!("vx_{f}"), Some(t.to_string())))).collect()));
    env.insert(pn[2].clone(), Val::E("vx_second".into(), Some("u32".into())));
    env.insert(pn[3].clone(), Val::E("vx_nanosecond".into(), Some("u32".into())));
    let Val::E(pk, _) = ev.block(pb, &env)? else { return Err("pack0".into()) };
    let mut env = Env::new();
    env.insert(un[0].clone(), Val::E("vx_w".into(), Some("u64".into())));
    let Val::Tuple(t) = ev.block(ub, &env)? else { return Err("unpack0".into()) };
    let [Val::Prec(Some(p)), Val::Struct(g), Val::E(sec, _), Val::E(ns, _)] = &t[..] else { return Err("result of unpack0".into()) };
    let Val::E(p, _) = &**p else { return Err("precision".into()) };
    let mut parts = vec![];
    for (f, _) in FIELDS {
        let Some(Val::E(x, _)) = g.get(f) else { return Err("date".into()) };
        parts.push((f, x.clone()));
    }
    let (enc, enc_ty) = ev.enc.clone().ok_or("the precision is not encoded by a function")?;
    let (dec, _) = ev.dec.clone().ok_or("the precision is not decoded by a function")?;
    let max_p = enc
        .split(|c: char| !c.is_ascii_alphanumeric() && c != '_')
        .filter_map(|w| w.trim_end_matches("u8").trim_end_matches('_').parse::<i128>().ok())
        .max()
        .ok_or("encoding")?;
    ev.masks.sort();
    ev.masks.dedup();
    let masks: String = ev
        .masks
        .iter()
        .filter(|m| **m >= 0 && **m <= u64::MAX as i128)
        .map(|m| format!("assert(forall|x: u64| #[trigger] (x & {m}) <= {m}) by(bit_vector);\n"))
        .collect();
    let date: String = parts.iter().map(|(f, x)| format!("{f}: {x}, ")).collect();
    let append = format!(
        "verus!{{
{enc}
{dec}
/// what the current `unpack0` computes, field by field
#[verifier::opaque]
pub open spec fn unp(vx_w: u64) -> (Precision, GregorianNormalizedDate, int, int) {{
    (vx_dec({p}), GregorianNormalizedDate {{ {date}}}, {sec} as int, {ns} as int)
}}
/// the word the current `pack0` computes
#[verifier::opaque]
pub open spec fn vx_pk(vx_precision: Precision, vx_g: GregorianNormalizedDate, vx_second: u32, vx_nanosecond: u32) -> u64 {{
    let vx_p: {enc_ty} = vx_enc(vx_precision);
    {glets}
    {pk}
}}
/*@fn DateTime::unpack0*/
pub broadcast proof fn unp_range(vx_w: u64)
    ensures 0 <= (#[trigger] unp(vx_w)).3 <= 0x7FFF0000, unp(vx_w).3 % 65536 == 0, 0 <= unp(vx_w).2 <= 131071,
        -6 <= unp(vx_w).1.cycle <= 25
{{
    reveal(unp);
    assert({ns} <= 0x7FFF0000u32 && {ns} % 65536u32 == 0 && {sec} <= 131071u32 && -6i8 <= {cycle} && {cycle} <= 25i8) by(bit_vector);
}}
/*@endfn*/
}}
",
        glets = FIELDS.iter().map(|(f, t)| format!("let vx_{f}: {t} = vx_g.{f};")).collect::<String>(),
        cycle = parts[0].1
    );
    let lets: String = FIELDS.iter().map(|(f, t)| format!("let vx_{f}: {t} = {}.{f};\n", pn[1])).collect();
    let eqs: String = parts.iter().map(|(f, x)| format!(" && {x} == vx_{f}")).collect();
    let pack_entry = format!(
        "reveal(unp); reveal(vx_pk);
let vx_p: {enc_ty} = vx_enc({prec});
assert(vx_p <= {max_p} && vx_dec(vx_p) == {prec});
{lets}let vx_second: u32 = {s};
let vx_nanosecond: u32 = {n};
let vx_w: u64 = {pk};
assert({p} == vx_p{eqs} && {sec} == vx_second && {ns} == sub(vx_nanosecond, vx_nanosecond % 65536u32)) by(bit_vector)
    requires vx_p <= {max_p}, -6i8 <= vx_cycle, vx_cycle <= 25i8, vx_century <= 3u8, vx_quadrennium <= 24u8, vx_year <= 3u8, vx_day <= 511u16,
        vx_second <= 131071u32, vx_nanosecond < 0x40000000u32, vx_w == {pk};
let vx_rounded: u32 = sub(vx_nanosecond, vx_nanosecond % 65536u32);
assert(vx_w == {pk2}) by(bit_vector)
    requires vx_nanosecond < 0x40000000u32, vx_w == {pk}, vx_rounded == sub(vx_nanosecond, vx_nanosecond % 65536u32);
",
        pk2 = crate::rename(&pk, &[("vx_nanosecond".to_string(), "vx_rounded".to_string())].into()),
        prec = pn[0],
        s = pn[2],
        n = pn[3],
    );
    Ok(Codec { append, pack_entry, unpack_entry: format!("reveal(unp);\n{masks}") })
}
