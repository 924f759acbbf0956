//! Contract files.
use crate::R;
use std::collections::HashMap;

#[derive(Clone, Default, Debug)]
pub struct Contract {
    pub uses: Option<String>,
    pub selfty: Option<String>,
    pub ret: Option<String>,
    pub generics: Option<String>,
    pub types: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub panics_if: Option<String>,
    pub dec: String,
    /// (place, index) -> ghost text; places: loop, body, end, pre, post, closure, entry, exit, before NAME, after NAME
    pub texts: HashMap<(String, String), String>,
    pub nested: Vec<Contract>,
}
impl Contract {
    /// takes what is missing from `b`
    pub fn merge(&mut self, b: Contract) {
        let add = |a: &mut String, b: String| *a = format!("{}\n{}", b, a);
        add(&mut self.requires, b.requires);
        add(&mut self.ensures, b.ensures);
        if self.panics_if.is_none() {
            self.panics_if = b.panics_if;
        }
        if self.ret.is_none() {
            self.ret = b.ret;
        }
        for (k, v) in b.texts {
            self.texts.entry(k).or_insert(v);
        }
        self.attrs.extend(b.attrs);
    }
}
pub enum Item {
    Raw(String),
    Contract(String, Contract),
    Const { file: String, name: String },
    Struct { file: String, name: String, getters: bool, own: bool },
    Fn { file: String, path: String, c: Contract, external: bool },
}

pub fn parse(vc: &str, prelude: &str) -> R<Vec<Item>> {
    let text = std::fs::read_to_string(vc).map_err(|e| format!("{vc}: {e}"))?;
    let dir = std::path::Path::new(vc).parent().unwrap().to_path_buf();
    let mut items = vec![];
    let mut it = text.lines().enumerate().peekable();
    while let Some((n, l)) = it.next() {
        let err = |m: &str| format!("{vc}:{}: {m}", n + 1);
        let t = l.trim_end();
        if t.trim().is_empty() || t.starts_with("//") {
            continue;
        }
        let w: Vec<&str> = t.split_whitespace().collect();
        match w[0] {
            "%include" => {
                let p = format!("{prelude}/{}.rs", w[1]);
                if !once(&p) {
                    continue;
                }
                items.push(Item::Raw(std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?));
            }
            "%import" => {
                let p = dir.join(w[1]);
                if once(p.to_str().unwrap()) {
                    items.extend(parse(p.to_str().unwrap(), prelude)?);
                }
            }
            "%raw" => {
                let mut s = String::from("verus! {\n");
                for (_, l) in it.by_ref() {
                    if l.trim_end() == "%end" {
                        break;
                    }
                    s.push_str(l);
                    s.push('\n');
                }
                s.push_str("} // verus!\n");
                items.push(Item::Raw(s));
            }
            "%const" => items.push(Item::Const { file: w[1].into(), name: w[2].into() }),
            "%struct" => items.push(Item::Struct {
                file: w[1].into(),
                name: w[2].into(),
                getters: w.contains(&"getters"),
                own: w.contains(&"own"),
            }),
            "%fn" | "%contract" => {
                let mut c = Contract::default();
                let mut cur: Option<(String, String)> = None;
                let mut buf = String::new();
                let mut nest: Option<usize> = None;
                loop {
                    let stop = match it.peek() {
                        None => true,
                        Some((_, l)) => l.starts_with('%'),
                    };
                    let l = if stop { "@end_" } else { it.next().unwrap().1 };
                    if let Some(d) = l.strip_prefix('@') {
                        if let Some((k, a)) = cur.take() {
                            let tgt = match nest {
                                Some(i) => &mut c.nested[i],
                                None => &mut c,
                            };
                            let b = std::mem::take(&mut buf);
                            match k.as_str() {
                                "requires" => tgt.requires = b,
                                "ensures" => tgt.ensures = b,
                                _ => {
                                    tgt.texts.insert((k, a), b);
                                }
                            }
                        }
                        if stop {
                            break;
                        }
                        let (k, a) = d.split_once(' ').unwrap_or((d, ""));
                        let a = a.trim();
                        let tgt = match nest {
                            Some(i) => &mut c.nested[i],
                            None => &mut c,
                        };
                        match k {
                            "self" => tgt.selfty = Some(a.into()),
                            "use" => tgt.uses = Some(a.into()),
                            "ret" => tgt.ret = Some(a.into()),
                            "generics" => tgt.generics = Some(a.into()),
                            // the instance of a type parameter that is verified
                            "type" => match a.split_once(' ') {
                                Some((x, y)) => tgt.types.push((x.trim().into(), y.trim().into())),
                                None => return Err(format!("@type {a}")),
                            },
                            "attr" => tgt.attrs.push(a.into()),
                            "panics_if" => tgt.panics_if = Some(a.into()),
                            "decreases" => tgt.dec = a.into(),
                            "nested" => {
                                c.nested.push(Contract::default());
                                nest = Some(c.nested.len() - 1);
                            }
                            "requires" | "ensures" | "loop" | "body" | "end" | "pre" | "post" | "closure" | "panic" | "entry" | "exit" | "before" | "after" | "then" | "else" => {
                                cur = Some((k.into(), a.into()));
                            }
                            _ => return Err(err(&format!("unknown section @{k}"))),
                        }
                    } else if l.trim_start().starts_with("//") {
                    } else if cur.is_some() {
                        buf.push_str(l);
                        buf.push('\n');
                    } else if !l.trim().is_empty() {
                        return Err(err(&format!("text outside of a section: {l}")));
                    }
                }
                if w[0] == "%fn" {
                    items.push(Item::Fn { file: w[1].into(), path: w[2].into(), c, external: w.get(3) == Some(&"external") });
                } else {
                    items.push(Item::Contract(w[1].into(), c));
                }
            }
            _ => return Err(err(&format!("unknown directive {}", w[0]))),
        }
    }
    Ok(items)
}

/// true the first time: a file that two others need is taken once
fn once(p: &str) -> bool {
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default());
    SEEN.with(|s| s.borrow_mut().insert(p.to_string()))
}
