//! up4x: extracts functions of /repo into one Verus file and weaves contracts into them.
//! usage: up4x CONTRACT.vc REPO PRELUDE_DIR OUT.rs OUT.map [FUNCTION,...]
//! With a list, only those functions are verified; of the others, only signature and contract are taken.
mod parse;
mod print;
mod xform;
use std::collections::HashMap;
use std::fmt::Write as _;

pub type R<T> = Result<T, String>;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 && a.len() != 7 {
        eprintln!("usage: up4x CONTRACT.vc REPO PRELUDE_DIR OUT.rs OUT.map [FUNCTION,...]");
        std::process::exit(2);
    }
    let only: Option<Vec<&str>> = a.get(6).map(|x| x.split(',').collect());
    match run(&a[1], &a[2], &a[3], only) {
        Ok((src, map)) => {
            std::fs::write(&a[4], src).unwrap();
            std::fs::write(&a[5], map).unwrap();
        }
        Err(e) => {
            eprintln!("up4x: {e}");
            std::process::exit(3);
        }
    }
}

fn find_fn(
    files: &mut HashMap<String, syn::File>,
    repo: &str,
    file: &str,
    path: &str,
) -> R<(syn::Signature, Option<syn::Block>)> {
    if !files.contains_key(file) {
        let text = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("{file}: {e}"))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{file}: does not parse: {e}"))?;
        files.insert(file.into(), f);
    }
    let f = &files[file];
    let (owner, name) = match path.rsplit_once("::") {
        Some((o, n)) => (Some(o), n),
        None => (None, path),
    };
    let mut hit = vec![];
    for it in &f.items {
        match it {
            syn::Item::Fn(x) if owner.is_none() && x.sig.ident == name => hit.push((x.sig.clone(), Some((*x.block).clone()))),
            syn::Item::Impl(im) => {
                let ty = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                if Some(ty.as_str()) != owner {
                    continue;
                }
                for i in &im.items {
                    if let syn::ImplItem::Fn(m) = i {
                        if m.sig.ident == name {
                            hit.push((m.sig.clone(), Some(m.block.clone())));
                        }
                    }
                }
            }
            syn::Item::Trait(t) if Some(t.ident.to_string().as_str()) == owner => {
                for i in &t.items {
                    if let syn::TraitItem::Fn(m) = i {
                        if m.sig.ident == name {
                            hit.push((m.sig.clone(), m.default.clone()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match hit.len() {
        1 => Ok(hit.pop().unwrap()),
        0 => Err(format!("lost anchor: {file} has no function {path}")),
        n => Err(format!("lost anchor: {file} has {n} functions {path}")),
    }
}

fn run(vc: &str, repo: &str, prelude: &str, only: Option<Vec<&str>>) -> R<(String, String)> {
    let items = parse::parse(vc, prelude)?;
    let mut files: HashMap<String, syn::File> = HashMap::new();
    let mut contracts: HashMap<String, parse::Contract> = HashMap::new();
    let mut out = String::from("#![allow(unused_imports, non_snake_case, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments)]\n");
    let mut map = String::new();
    let line = |s: &str| s.matches('\n').count() + 1;
    for it in items {
        match it {
            parse::Item::Raw(t) => {
                out.push_str(&t);
                out.push('\n');
            }
            parse::Item::Contract(n, c) => {
                contracts.insert(n, c);
            }
            parse::Item::Const { file, name } => {
                let text = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("{file}: {e}"))?;
                let f = syn::parse_file(&text).map_err(|e| format!("{file}: does not parse: {e}"))?;
                let c = f
                    .items
                    .iter()
                    .find_map(|i| match i {
                        syn::Item::Const(c) if c.ident == name => Some(c.clone()),
                        _ => None,
                    })
                    .ok_or(format!("lost anchor: {file} has no constant {name}"))?;
                let (ty, e) = (&c.ty, &c.expr);
                let def = format!("verus! {{ pub const {name}: {} = {}; }}\n", quote::quote!(#ty), quote::quote!(#e));
                if !out.contains(&def) {
                    out.push_str(&def);
                }
            }
            parse::Item::Struct { file, name, getters, own } => {
                let text = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("{file}: {e}"))?;
                let f = syn::parse_file(&text).map_err(|e| format!("{file}: does not parse: {e}"))?;
                let st = f
                    .items
                    .iter()
                    .find_map(|i| match i {
                        syn::Item::Struct(s) if s.ident == name => Some(s.clone()),
                        _ => None,
                    })
                    .ok_or(format!("lost anchor: {file} has no struct {name}"))?;
                let mut x = xform::X::new(&name, None);
                let _ = writeln!(out, "verus! {{");
                let _ = writeln!(out, "pub struct {name} {{");
                let mut gets = String::new();
                for fl in &st.fields {
                    let id = fl.ident.clone().ok_or("tuple struct")?;
                    let ty = print::tokens(&x.ty(&fl.ty)?);
                    let _ = writeln!(out, "    pub {id}: {ty},");
                    let mut gname = id.to_string();
                    for at in &fl.attrs {
                        if at.path().is_ident("getter") {
                            let s = quote::quote!(#at).to_string();
                            if let Some(p) = s.find("rename") {
                                let r: Vec<&str> = s[p..].split('"').collect();
                                gname = r.get(1).ok_or("getter rename")?.to_string();
                            }
                        }
                    }
                    let _ = writeln!(gets, "    pub fn {gname}(&self) -> (r: &{ty}) ensures *r == self.{id} {{ &self.{id} }}");
                }
                let _ = writeln!(out, "}}");
                if getters || own {
                    let _ = writeln!(out, "impl {name} {{");
                    if getters {
                        out.push_str(&gets);
                    }
                    if own {
                        let _ = writeln!(out, "    // derived Clone\n    #[verifier::external_body]\n    pub fn own(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}");
                    }
                    let _ = writeln!(out, "}}");
                }
                let _ = writeln!(out, "}} // verus!");
            }
            parse::Item::Fn { file, path, mut c, external } => {
                let external = external || only.as_ref().is_some_and(|o| !o.contains(&path.as_str()));
                if let Some(n) = &c.uses {
                    let base = contracts.get(n).ok_or(format!("no contract {n}"))?.clone();
                    c.merge(base);
                }
                let (mut sig, mut block) = find_fn(&mut files, repo, &file, &path)?;
                instance(&mut sig, block.as_mut(), &c.types)?;
                let owner = c.selfty.clone().or(path.rsplit_once("::").map(|x| x.0.to_string()));
                let src_line = sig.ident.span().start().line;
                let r = emit_fn(&sig, block, &c, owner.as_deref(), external, &path);
                let e = r.map_err(|e| format!("{file} {path}: {e}"))?;
                let start = line(&out);
                let _ = writeln!(out, "verus! {{");
                let body_start = line(&out);
                out.push_str(&e.0);
                let _ = writeln!(out, "}} // verus!");
                let _ = writeln!(
                    map,
                    "fn\t{}\t{}\t{}\t{}\t{}\t{}",
                    if external { "external" } else { "verified" },
                    start,
                    line(&out) - 1,
                    file,
                    src_line,
                    path
                );
                let _ = writeln!(map, "pr\t{}\t{}", e.2, path);
                for (l, sl) in e.1 {
                    let _ = writeln!(map, "ln\t{}\t{}\t{}", body_start + l, file, sl);
                }
            }
        }
    }
    Ok((out, map))
}

/// replaces type parameters by the types of the verified instance
fn instance(sig: &mut syn::Signature, block: Option<&mut syn::Block>, types: &[(String, String)]) -> R<()> {
    use syn::visit_mut::VisitMut;
    struct S(Vec<(String, syn::Type)>);
    impl VisitMut for S {
        fn visit_type_mut(&mut self, t: &mut syn::Type) {
            if let syn::Type::Path(p) = t {
                if let Some(i) = p.path.get_ident() {
                    if let Some((_, n)) = self.0.iter().find(|x| *i == x.0) {
                        *t = n.clone();
                        return;
                    }
                }
            }
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
    let mut s = S(vec![]);
    for (a, b) in types {
        if !sig.generics.type_params().any(|p| p.ident == *a) {
            return Err(format!("lost anchor: {} has no type parameter {a}", sig.ident));
        }
        s.0.push((a.clone(), syn::parse_str(b).map_err(|e| e.to_string())?));
    }
    if types.is_empty() {
        return Ok(());
    }
    let g = std::mem::take(&mut sig.generics.params);
    sig.generics.params = g.into_iter().filter(|p| !matches!(p, syn::GenericParam::Type(t) if types.iter().any(|x| t.ident == x.0))).collect();
    sig.generics.where_clause = None;
    s.visit_signature_mut(sig);
    if let Some(b) = block {
        s.visit_block_mut(b);
    }
    Ok(())
}

fn emit_fn(
    sig: &syn::Signature,
    block: Option<syn::Block>,
    c: &parse::Contract,
    owner: Option<&str>,
    external: bool,
    path: &str,
) -> R<(String, Vec<(usize, usize)>, usize)> {
    let mut x = xform::X::new(owner.unwrap_or(""), Some(c));
    let mut s = String::new();
    if let Some(o) = owner {
        let _ = writeln!(s, "impl {o} {{");
    }
    for a in &c.attrs {
        let _ = writeln!(s, "{a}");
    }
    if external {
        let _ = writeln!(s, "#[verifier::external_body]");
    }
    let mut gen = String::new();
    if !sig.generics.params.is_empty() {
        if let Some(g) = &c.generics {
            gen = g.clone();
        } else {
            return Err("generic function without @generics".into());
        }
    } else if let Some(g) = &c.generics {
        gen = g.clone();
    }
    let mut params = vec![];
    let mut renames = vec![];
    for p in &sig.inputs {
        match p {
            syn::FnArg::Receiver(r) => params.push(if r.reference.is_some() {
                if r.mutability.is_some() { "&mut self".to_string() } else { "&self".to_string() }
            } else {
                "self".to_string()
            }),
            syn::FnArg::Typed(t) => {
                let ty = print::tokens(&x.ty(&t.ty)?);
                match &*t.pat {
                    syn::Pat::Ident(i) => {
                        if i.mutability.is_some() {
                            renames.push(i.ident.to_string());
                        }
                        params.push(format!("{}: {}", i.ident, ty))
                    }
                    _ => return Err("parameter pattern".into()),
                }
            }
        }
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(print::tokens(&x.ty(t)?)),
    };
    let _ = write!(s, "pub fn {}{}({})", sig.ident, gen, params.join(", "));
    if let Some(t) = &ret {
        let _ = write!(s, " -> ({}: {})", c.ret.as_deref().unwrap_or("__r"), t);
    }
    let _ = writeln!(s);
    if !c.requires.trim().is_empty() {
        let _ = writeln!(s, "    requires\n{}", c.requires.trim_end());
    }
    let mut ens = c.ensures.trim_end().to_string();
    if let Some(p) = &c.panics_if {
        ens.push_str(&format!("\n        !({p}),"));
    }
    if !ens.trim().is_empty() {
        let _ = writeln!(s, "    ensures\n{}", ens);
    }
    if !c.dec.trim().is_empty() {
        let _ = writeln!(s, "    decreases {}", c.dec.trim());
    }
    let mut lines = vec![];
    if external {
        let _ = writeln!(s, "{{ unimplemented!() }}");
    } else {
        let b = block.ok_or("function without a body")?;
        let mut b = x.body(b, &renames)?;
        if let Some(e) = x.check_anchors() {
            return Err(e);
        }
        x.finish(&mut b);
        let base = s.matches('\n').count();
        let (t, ln) = print::block(&b, &x.texts);
        s.push_str(&t);
        s.push('\n');
        for (l, sl) in ln {
            lines.push((base + l, sl));
        }
    }
    if owner.is_some() {
        let _ = writeln!(s, "}}");
    }
    // functions nested in the body, hoisted
    for (i, (nsig, nb)) in x.nested.clone().into_iter().enumerate() {
        let nc = c.nested.get(i).cloned().unwrap_or_default();
        let (t, ln, _) = emit_fn(&nsig, Some(nb), &nc, None, false, path)?;
        let base = s.matches('\n').count();
        s.push_str(&t);
        for (l, sl) in ln {
            lines.push((base + l, sl));
        }
    }
    if let Some(d) = x.dispatcher() {
        s.push_str(&d);
    }
    Ok((s, lines, x.points()))
}
