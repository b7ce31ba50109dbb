//! Contract files (*.vc): one section per source file, see DESIGN.md.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Default, Clone)]
pub struct ClosureC {
    pub params: Vec<String>,
    pub types: Vec<Option<String>>,
    pub spec: String,
}
#[derive(Default, Clone)]
pub struct LoopC {
    pub var: Option<String>,
    pub spec: String,
    /// the same invariant for a loop that counts, `for i in 0..n` or `while i < n`; vx_i is the
    /// number of iterations done
    pub alt: String,
}
#[derive(Default, Clone)]
pub struct FnC {
    pub params: Vec<String>,
    pub ptypes: Vec<String>,
    pub ret: Option<String>,
    pub tags: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub external_body: bool,
    pub attrs: Vec<String>,
    pub sigfix: Option<Vec<(String, String)>>,
}
#[derive(Default, Clone)]
pub struct TraitC {
    pub bounds: String,
    pub items: String,
}
#[derive(Default, Clone)]
pub struct LiftC {
    pub prefix: String,
}
#[derive(Default, Clone)]
pub struct FileC {
    pub prelude: String,
    pub append: String,
    pub fns: BTreeMap<String, FnC>,
    pub traits: BTreeMap<String, TraitC>,
    pub drop: BTreeSet<String>,
    pub drop_use: Vec<String>,
    pub path_map: Vec<(String, String)>,
    pub drop_ord: BTreeSet<String>,
    pub drop_derive: BTreeSet<String>,
    pub rank_enum: BTreeSet<String>,
    pub keep_impl: BTreeSet<String>,
    pub type_attrs: BTreeMap<String, String>,
    pub mono: BTreeMap<String, Vec<Vec<String>>>,
    pub codec: bool,
    pub lift: BTreeMap<String, LiftC>,
    pub retrait: BTreeMap<String, TraitC>,
    /// traits every impl of which (also those written by a macro) is checked against the
    /// contract of the trait's declaration; with the property tags
    pub trait_impls: BTreeMap<String, Vec<String>>,
}
#[derive(Default)]
pub struct Contracts {
    pub files: BTreeMap<String, FileC>,
    pub extra: Vec<(String, String)>,
}

fn parse_head(s: &str) -> (String, Vec<String>, Option<String>, Vec<String>) {
    // KEY(params) [-> ret] [: tags]
    let (s, tags) = match s.rfind(" : ") {
        Some(i) => (&s[..i], s[i + 3..].split_whitespace().map(|x| x.to_string()).collect()),
        None => (s, vec![]),
    };
    let (s, ret) = match s.rfind("->") {
        Some(i) => (s[..i].trim(), Some(s[i + 2..].trim().to_string())),
        None => (s.trim(), None),
    };
    let i = s.rfind('(').expect(s);
    let key = s[..i].trim().to_string();
    let inner = s[i + 1..].trim_end_matches(')').trim();
    let params = if inner.is_empty() { vec![] } else { inner.split(',').map(|x| x.trim().to_string()).collect() };
    (key, params, ret, tags)
}

enum Mode {
    None,
    Spec,
    Entry,
    Loop(usize),
    LoopIndex(usize),
    Closure(usize),
    Append,
    Prelude,
    TraitItems(String),
    RetraitItems(String),
}

pub fn load(dir: &Path) -> Contracts {
    let mut cs = Contracts::default();
    let mut names: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let text = fs::read_to_string(&p).unwrap();
        if name.ends_with(".rs") {
            cs.extra.push((name, text));
            continue;
        }
        if !name.ends_with(".vc") {
            continue;
        }
        let mut cur: Option<String> = None;
        let mut cfn: Option<String> = None;
        let mut mode = Mode::None;
        for line in text.lines() {
            if let Some(d) = line.strip_prefix('@') {
                let (word, rest) = match d.find(char::is_whitespace) {
                    Some(i) => (&d[..i], d[i..].trim()),
                    None => (d, ""),
                };
                if word == "file" {
                    cur = Some(rest.to_string());
                    cs.files.entry(rest.to_string()).or_default();
                    mode = Mode::None;
                    continue;
                }
                let f = cs.files.get_mut(cur.as_ref().expect("@file first")).unwrap();
                macro_rules! cf {
                    () => {
                        f.fns.get_mut(cfn.as_ref().expect(line)).unwrap()
                    };
                }
                match word {
                    "fn" => {
                        let (key, params, ret, tags) = parse_head(rest);
                        let c = f.fns.entry(key.clone()).or_default();
                        c.params = params;
                        c.ret = ret;
                        c.tags = tags;
                        cfn = Some(key);
                        mode = Mode::Spec;
                    }
                    "entry" => mode = Mode::Entry,
                    "loop" => {
                        let mut it = rest.split_whitespace();
                        let n: usize = it.next().unwrap().parse().unwrap();
                        cf!().loops.insert(n, LoopC { var: it.next().map(|s| s.to_string()), ..LoopC::default() });
                        mode = Mode::Loop(n);
                    }
                    "loop_index" => mode = Mode::LoopIndex(rest.parse().unwrap()),
                    "closure" => {
                        // @closure N name: type, name
                        let (n, r) = rest.split_once(' ').unwrap_or((rest, ""));
                        let n: usize = n.parse().unwrap();
                        let mut c = ClosureC::default();
                        for p in r.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()) {
                            match p.split_once(':') {
                                Some((a, b)) => {
                                    c.params.push(a.trim().into());
                                    c.types.push(Some(b.trim().into()));
                                }
                                None => {
                                    c.params.push(p.into());
                                    c.types.push(None);
                                }
                            }
                        }
                        cf!().closures.insert(n, c);
                        mode = Mode::Closure(n);
                    }
                    "external_body" => cf!().external_body = true,
                    "attr" => cf!().attrs.push(rest.to_string()),
                    "sig" => {
                        let (a, b) = rest.split_once(" ==> ").expect(line);
                        cf!().sigfix.get_or_insert_with(Vec::new).push((a.to_string(), b.to_string()));
                    }
                    "trait" => {
                        let (n, b) = match rest.split_once(':') {
                            Some((n, b)) => (n.trim(), b.trim()),
                            None => (rest, ""),
                        };
                        f.traits.insert(n.to_string(), TraitC { bounds: b.to_string(), items: String::new() });
                        mode = Mode::TraitItems(n.to_string());
                    }
                    "retrait" => {
                        // @retrait PREFIX = TRAIT; spec items follow
                        let (k, v) = rest.split_once('=').unwrap();
                        f.retrait.insert(k.trim().to_string(), TraitC { bounds: v.trim().to_string(), items: String::new() });
                        mode = Mode::RetraitItems(k.trim().to_string());
                    }
                    "drop" => {
                        f.drop.insert(rest.to_string());
                        mode = Mode::None;
                    }
                    "drop_use" => {
                        f.drop_use.push(rest.to_string());
                        mode = Mode::None;
                    }
                    "path_map" => {
                        let (a, b) = rest.split_once(" ==> ").expect(line);
                        f.path_map.push((a.to_string(), b.to_string()));
                        mode = Mode::None;
                    }
                    "drop_ord" => {
                        f.drop_ord.insert(rest.to_string());
                        mode = Mode::None;
                    }
                    "drop_derive" => {
                        f.drop_derive.insert(rest.to_string());
                        mode = Mode::None;
                    }
                    "rank_enum" => {
                        f.rank_enum.insert(rest.to_string());
                        mode = Mode::None;
                    }
                    "trait_impls" => {
                        let (k, v) = rest.split_once(':').unwrap_or((rest, ""));
                        f.trait_impls.insert(k.trim().to_string(), v.split_whitespace().map(|x| x.to_string()).collect());
                        mode = Mode::None;
                    }
                    "keep_impl" => {
                        f.keep_impl.insert(rest.to_string());
                        mode = Mode::None;
                    }
                    "type_attr" => {
                        let (n, t) = rest.split_once(' ').unwrap();
                        f.type_attrs.insert(n.to_string(), format!("{t}\n"));
                        mode = Mode::None;
                    }
                    "mono" => {
                        // @mono Prefix = T,Q ; T,Q
                        let (k, v) = rest.split_once('=').unwrap();
                        f.mono.insert(
                            k.trim().to_string(),
                            v.split(';').map(|x| x.split(',').map(|y| y.trim().to_string()).collect()).collect(),
                        );
                        mode = Mode::None;
                    }
                    "codec" => {
                        f.codec = true;
                        mode = Mode::None;
                    }
                    "lift" => {
                        let (k, v) = rest.split_once('=').unwrap();
                        f.lift.insert(k.trim().to_string(), LiftC { prefix: v.trim().to_string() });
                        mode = Mode::None;
                    }
                    "append" => mode = Mode::Append,
                    "prelude" => mode = Mode::Prelude,
                    "end" => mode = Mode::None,
                    _ => panic!("unknown directive in {name}: {line}"),
                }
                continue;
            }
            let Some(c) = cur.as_ref() else { continue };
            let f = cs.files.get_mut(c).unwrap();
            let l = format!("{line}\n");
            match &mode {
                Mode::None => {}
                Mode::Spec => f.fns.get_mut(cfn.as_ref().unwrap()).unwrap().spec.push_str(&l),
                Mode::Entry => f.fns.get_mut(cfn.as_ref().unwrap()).unwrap().entry.push_str(&l),
                Mode::Loop(n) => f.fns.get_mut(cfn.as_ref().unwrap()).unwrap().loops.get_mut(n).unwrap().spec.push_str(&l),
                Mode::LoopIndex(n) => f.fns.get_mut(cfn.as_ref().unwrap()).unwrap().loops.get_mut(n).unwrap().alt.push_str(&l),
                Mode::Closure(n) => f.fns.get_mut(cfn.as_ref().unwrap()).unwrap().closures.get_mut(n).unwrap().spec.push_str(&l),
                Mode::Append => f.append.push_str(&l),
                Mode::Prelude => f.prelude.push_str(&l),
                Mode::RetraitItems(t) => f.retrait.get_mut(t).unwrap().items.push_str(&l),
                Mode::TraitItems(t) => f.traits.get_mut(t).unwrap().items.push_str(&l),
            }
        }
    }
    cs
}
