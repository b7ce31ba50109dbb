//! Integer constants of the crate, evaluated, so that their uses can be written as literals.
//! The overlay also contains a proof obligation `CONST == value` per constant, so a wrong
//! evaluation here cannot go unnoticed.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Const {
    pub ty: String,
    pub val: i128,
}

#[derive(Default)]
pub struct Consts {
    pub map: BTreeMap<String, Option<Const>>,
}

const INTS: &[&str] = &["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "usize", "isize"];

fn bits(t: &str) -> (u32, bool) {
    match t {
        "usize" => (64, false),
        "isize" => (64, true),
        _ => (t[1..].parse().unwrap(), t.starts_with('i')),
    }
}
fn wrap(v: i128, t: &str) -> i128 {
    let (b, s) = bits(t);
    if b >= 128 {
        return v;
    }
    let m = v & ((1i128 << b) - 1);
    if s && m >> (b - 1) != 0 {
        m - (1i128 << b)
    } else {
        m
    }
}

impl Consts {
    pub fn collect<'a>(files: impl Iterator<Item = &'a syn::File>) -> Consts {
        let mut raw: Vec<(String, Option<String>, String, syn::Expr)> = vec![];
        for f in files {
            for it in &f.items {
                match it {
                    syn::Item::Const(c) => {
                        if let syn::Type::Path(p) = &*c.ty {
                            if let Some(i) = p.path.get_ident() {
                                raw.push((c.ident.to_string(), None, i.to_string(), (*c.expr).clone()));
                            }
                        }
                    }
                    syn::Item::Impl(im) if im.trait_.is_none() => {
                        let t = crate::type_name(&im.self_ty);
                        for d in &im.items {
                            if let syn::ImplItem::Const(c) = d {
                                if let syn::Type::Path(p) = &c.ty {
                                    if let Some(i) = p.path.get_ident() {
                                        raw.push((format!("{t}::{}", c.ident), Some(t.clone()), i.to_string(), c.expr.clone()));
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut cs = Consts::default();
        for _ in 0..6 {
            for (n, sty, ty, e) in &raw {
                if !INTS.contains(&ty.as_str()) {
                    continue;
                }
                if let Some(v) = cs.eval(e, sty.as_deref()) {
                    let c = Const { ty: ty.clone(), val: v };
                    match cs.map.get(n) {
                        Some(Some(o)) if o.val != v || o.ty != *ty => {
                            cs.map.insert(n.clone(), None);
                        }
                        Some(None) => {}
                        _ => {
                            cs.map.insert(n.clone(), Some(c));
                        }
                    }
                }
            }
        }
        cs
    }
    pub fn lookup(&self, p: &syn::Path, sty: Option<&str>) -> Option<Const> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let key = match segs.len() {
            1 => segs[0].clone(),
            2 if segs[0] == "Self" => format!("{}::{}", sty?, segs[1]),
            _ => {
                let n = segs.len();
                let k = format!("{}::{}", segs[n - 2], segs[n - 1]);
                if self.map.contains_key(&k) {
                    k
                } else if segs[0] == "crate" || segs[0] == "super" {
                    segs[n - 1].clone()
                } else {
                    return None;
                }
            }
        };
        self.map.get(&key).cloned().flatten()
    }
    pub fn eval(&self, e: &syn::Expr, sty: Option<&str>) -> Option<i128> {
        match e {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Int(i) => i.base10_parse().ok(),
                _ => None,
            },
            syn::Expr::Paren(p) => self.eval(&p.expr, sty),
            syn::Expr::Group(p) => self.eval(&p.expr, sty),
            syn::Expr::Unary(u) => match u.op {
                syn::UnOp::Neg(_) => Some(-self.eval(&u.expr, sty)?),
                _ => None,
            },
            syn::Expr::Cast(c) => {
                let v = self.eval(&c.expr, sty)?;
                if let syn::Type::Path(p) = &*c.ty {
                    let t = p.path.get_ident()?.to_string();
                    if INTS.contains(&t.as_str()) {
                        return Some(wrap(v, &t));
                    }
                }
                None
            }
            syn::Expr::Binary(b) => {
                let (l, r) = (self.eval(&b.left, sty)?, self.eval(&b.right, sty)?);
                match b.op {
                    syn::BinOp::Add(_) => l.checked_add(r),
                    syn::BinOp::Sub(_) => l.checked_sub(r),
                    syn::BinOp::Mul(_) => l.checked_mul(r),
                    syn::BinOp::Div(_) => l.checked_div(r),
                    syn::BinOp::Rem(_) => l.checked_rem(r),
                    _ => None,
                }
            }
            syn::Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() == 2 && INTS.contains(&s[0].as_str()) {
                    let (b, sg) = bits(&s[0]);
                    if b >= 128 {
                        return None;
                    }
                    return match s[1].as_str() {
                        "MAX" => Some(if sg { (1i128 << (b - 1)) - 1 } else { (1i128 << b) - 1 }),
                        "MIN" => Some(if sg { -(1i128 << (b - 1)) } else { 0 }),
                        _ => None,
                    };
                }
                self.lookup(&p.path, sty).map(|c| c.val)
            }
            _ => None,
        }
    }
    pub fn literal(c: &Const) -> String {
        if c.val < 0 {
            format!("(-{}{})", -c.val, c.ty)
        } else {
            format!("{}{}", c.val, c.ty)
        }
    }
}
