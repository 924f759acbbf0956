//! Mechanical rewriting of a function body into the verifier's vocabulary (see DESIGN.md, "Extraction").
use crate::{parse::Contract, R};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct X<'a> {
    #[allow(dead_code)]
    owner: String,
    c: Option<&'a Contract>,
    pub texts: Vec<String>,
    nloop: usize,
    nclo: usize,
    ndup: HashMap<String, usize>,
    used: HashSet<(String, String)>,
    pub nested: Vec<(Signature, Block)>,
    nested_base: String,
    local_fns: Vec<(String, usize)>,
    fnvars: HashSet<String>,
    mutviews: HashSet<String>,
    npanic: usize,
    errors: Vec<String>,
    probe: Option<usize>,
}

impl<'a> X<'a> {
    pub fn new(owner: &str, c: Option<&'a Contract>) -> Self {
        X { owner: owner.into(), c, texts: vec![], nloop: 0, nclo: 0, ndup: HashMap::new(), used: HashSet::new(), nested: vec![], nested_base: String::new(), local_fns: vec![], fnvars: HashSet::new(), mutviews: HashSet::new(), npanic: 0, errors: vec![], probe: std::env::var("UP4X_PROBE").ok().and_then(|s| s.parse().ok()) }
    }
    pub fn ty(&mut self, t: &Type) -> R<Type> {
        let mut t = t.clone();
        self.visit_type_mut(&mut t);
        self.take_err()?;
        Ok(t)
    }
    fn take_err(&mut self) -> R<()> {
        match self.errors.is_empty() {
            true => Ok(()),
            false => Err(self.errors.join("; ")),
        }
    }
    fn text(&mut self, t: String) -> proc_macro2::Literal {
        self.texts.push(t);
        proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1)
    }
    fn get(&mut self, k: &str, a: &str) -> Option<String> {
        let key = (k.to_string(), a.to_string());
        let r = self.c.and_then(|c| c.texts.get(&key).cloned());
        if r.is_some() {
            self.used.insert(key);
        }
        r
    }
    fn ghost(&mut self, k: &str, a: &str) -> TokenStream {
        let t = self.get(k, a);
        // vacuity probe: assert(false) at one point of every function
        let point = match k {
            "entry" => Some(0),
            "body" => a.parse::<usize>().ok().map(|n| 2 * n + 1),
            "post" => a.parse::<usize>().ok().map(|n| 2 * n + 2),
            _ => None,
        };
        let t = match (t, point.is_some() && point == self.probe) {
            (t, true) => Some(format!("{}\n    proof {{ assert(false); }}", t.unwrap_or_default())),
            (t, false) => t,
        };
        match t {
            Some(t) => {
                let i = self.text(t);
                quote!(__v_ghost!(#i);)
            }
            None => quote!(),
        }
    }
    pub fn points(&self) -> usize {
        2 * self.nloop + 1
    }
    pub fn check_anchors(&mut self) -> Option<String> {
        let c = self.c?;
        let mut lost: Vec<String> = c.texts.keys().filter(|k| !self.used.contains(*k)).map(|k| format!("@{} {}", k.0, k.1)).collect();
        lost.sort();
        if lost.is_empty() {
            None
        } else {
            Some(format!("lost anchor: {}", lost.join(", ")))
        }
    }
    pub fn finish(&mut self, _b: &mut Block) {}
    pub fn dispatcher(&self) -> Option<String> {
        if self.nested.is_empty() || self.fnvars.is_empty() {
            return None;
        }
        let c = self.c?;
        let sig = &self.nested[0].0;
        let mut s = String::new();
        let (mut ps, mut args) = (vec![], vec![]);
        for p in &sig.inputs {
            if let FnArg::Typed(t) = p {
                let (n, ty) = (&t.pat, crate::print::tokens(&X::new("", None).ty(&t.ty).ok()?));
                ps.push(format!("{}: {}", quote!(#n), ty));
                args.push(quote!(#n).to_string());
            }
        }
        let ret = match &sig.output {
            ReturnType::Type(_, t) => crate::print::tokens(&X::new("", None).ty(t).ok()?),
            _ => return None,
        };
        s.push_str(&format!("// call through a function pointer\npub fn __call{}(__tag: usize, {}) -> (r: {})\n", self.nested_base, ps.join(", "), ret));
        let req: Vec<String> = self.nested.iter().enumerate().map(|(i, _)| {
            let r = c.nested.get(i).map(|n| n.requires.trim().trim_end_matches(',').to_string()).unwrap_or_default();
            format!("__tag == {i} ==> {}", if r.is_empty() { "true".into() } else { r.split(",\n").map(|x| format!("({})", x.trim())).collect::<Vec<_>>().join(" && ") })
        }).collect();
        s.push_str(&format!("    requires __tag < {}, {}\n", self.nested.len(), req.join(", ")));
        let ens: Vec<String> = self.nested.iter().enumerate().map(|(i, _)| {
            let r = c.nested.get(i).map(|n| n.ensures.trim().trim_end_matches(',').to_string()).unwrap_or_default();
            format!("__tag == {i} ==> {}", if r.is_empty() { "true".into() } else { r.split(",\n").map(|x| format!("({})", x.trim())).collect::<Vec<_>>().join(" && ") })
        }).collect();
        s.push_str(&format!("    ensures {}\n{{\n", ens.join(", ")));
        for (i, (n, _)) in self.nested.iter().enumerate() {
            s.push_str(&format!("    {}if __tag == {i} {{ {}({}) }}\n", if i > 0 { "else " } else { "" }, n.ident, args.join(", ")));
        }
        s.push_str("    else { xunreachable() }\n}\n");
        Some(s)
    }

    pub fn body(&mut self, mut b: Block, renames: &[String]) -> R<Block> {
        let mut pre = vec![];
        for r in renames {
            let id = format_ident!("{}", r);
            pre.push(parse_quote!(let mut #id = #id;));
        }
        let g = self.ghost("entry", "");
        if !g.is_empty() {
            pre.push(stmt(g));
        }
        self.visit_block_mut(&mut b);
        pre.extend(std::mem::take(&mut b.stmts));
        b.stmts = pre;
        let g = self.ghost("exit", "");
        if !g.is_empty() {
            let g = stmt(g);
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => {
                    b.stmts.push(parse_quote!(let __res = #e;));
                    b.stmts.push(g);
                    b.stmts.push(Stmt::Expr(parse_quote!(__res), None));
                }
                Some(s) => {
                    b.stmts.push(s);
                    b.stmts.push(g);
                }
                None => b.stmts.push(g),
            }
        }
        self.take_err()?;
        Ok(b)
    }

    fn panic(&mut self) -> Expr {
        let p = self.c.and_then(|c| c.panics_if.clone()).unwrap_or("false".into());
        let k = self.npanic;
        self.npanic += 1;
        if let Some(t) = self.get("panic", &k.to_string()) {
            let i = self.text(format!("proof {{ {t} }} // a panic is reached only when"));
            return parse_quote!({ __v_ghost!(#i); xpanic() });
        }
        let i = self.text(format!("assert({p}); // a panic is reached only when"));
        parse_quote!({ __v_ghost!(#i); xpanic() })
    }

    /// None: the macro disappears
    fn mac(&mut self, m: &Macro) -> R<Option<Expr>> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        Ok(match n.as_str() {
            "print_debug" | "print_warning" | "check_signals" | "println" | "print" | "eprintln" => None,
            "panic" | "unimplemented" | "todo" => Some(self.panic()),
            "unreachable" => {
                let i = self.text("assert(false); // unreachable".into());
                Some(parse_quote!({ __v_ghost!(#i); xpanic() }))
            }
            "anyhow" => Some(parse_quote!(XErr {})),
            // a progress bar
            "setup_bar" => Some(parse_quote!(xbar())),
            "make_dataset_builder" => {
                let mut g: Expr = m.parse_body().map_err(|e| format!("{n}!: {e}"))?;
                self.visit_expr_mut(&mut g);
                Some(parse_quote!(#g.new_dataset_builder()))
            }
            // a failing assertion is a panic
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let p = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| format!("{n}!: {e}"))?;
                let two = n.ends_with("_eq") || n.ends_with("_ne");
                if p.len() < if two { 2 } else { 1 } {
                    return Err(format!("{n}! without arguments"));
                }
                let a = &p[0];
                let mut bad: Expr = if !two {
                    parse_quote!(!(#a))
                } else {
                    let b = &p[1];
                    if n.ends_with("_eq") {
                        parse_quote!(!(#a == #b))
                    } else {
                        parse_quote!(#a == #b)
                    }
                };
                self.visit_expr_mut(&mut bad);
                let x = self.panic();
                Some(parse_quote!(if #bad { #x }))
            }
            "matches" => {
                let e: ExprMatch = {
                    let t = m.tokens.clone();
                    let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
                    let k = v.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')).ok_or("matches!")?;
                    let a: TokenStream = v[..k].iter().cloned().collect();
                    let b: TokenStream = v[k + 1..].iter().cloned().collect();
                    parse2(quote!(match #a { #b => true, _ => false })).map_err(|e| format!("matches!: {e}"))?
                };
                let mut e = Expr::Match(e);
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            "array" | "vec" => {
                let t = m.tokens.clone();
                let f = format_ident!("{}", if n == "vec" { "vec_from_array" } else { "arr1_from_array" });
                if let Ok(r) = parse2::<ExprRepeat>(quote!([#t])) {
                    let (mut a, mut l) = (*r.expr, *r.len);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut l);
                    if n == "vec" {
                        Some(parse_quote!(vec_from_elem(#a, #l)))
                    } else {
                        return Err("array![x; n]".into());
                    }
                } else {
                    let mut a: Expr = parse2(quote!([#t])).map_err(|e| format!("{n}!: {e}"))?;
                    self.visit_expr_mut(&mut a);
                    Some(parse_quote!(#f(#a)))
                }
            }
            "format" => {
                // one number in a literal: `format!("step {}", n)` or `format!("step {n}")`
                let p = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| format!("{n}!: {e}"))?;
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = p.first() else { return Err("format! without a literal".into()) };
                if l.value() == "{}{}" && p.len() == 3 {
                    let (mut a, mut b) = (p[1].clone(), p[2].clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Ok(Some(parse_quote!(fmt2(#a, #b))));
                }
                let (lit, inline) = one_hole(&l.value()).ok_or("format! with other than one plain argument")?;
                let mut a: Expr = match (p.len(), inline) {
                    (2, None) => p[1].clone(),
                    (1, Some(i)) => parse_str(&i).map_err(|e| format!("format!: {e}"))?,
                    _ => return Err("format! with other than one plain argument".into()),
                };
                self.visit_expr_mut(&mut a);
                Some(parse_quote!(fmt1(#lit, XUse::x_use(#a))))
            }
            _ => return Err(format!("unsupported macro {n}!")),
        })
    }

    fn slice(&mut self, recv: &Expr, m: &Macro, mutable: bool) -> R<Expr> {
        let t = &m.tokens;
        let arr: ExprArray = parse2(quote!([#t])).map_err(|e| format!("s![]: {e}"))?;
        let mut sig = String::new();
        let mut args: Vec<Expr> = vec![];
        for e in arr.elems {
            match e {
                Expr::Range(r) if r.start.is_none() && r.end.is_none() => sig.push('a'),
                Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                    sig.push('r');
                    let (mut a, mut b) = (*a, *b);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    args.push(parse_quote!((#a, #b)));
                }
                Expr::Range(ExprRange { start: None, end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                    sig.push('r');
                    let mut b = *b;
                    self.visit_expr_mut(&mut b);
                    args.push(parse_quote!((0, #b)));
                }
                Expr::Range(_) => return Err("slice range".into()),
                mut e => {
                    sig.push('i');
                    self.visit_expr_mut(&mut e);
                    args.push(e);
                }
            }
        }
        let f = format_ident!("slice_{}{}", if mutable { "mut_" } else { "" }, sig);
        Ok(parse_quote!(#recv.#f(#(#args),*)))
    }

    fn loop_marks(&mut self, k: usize) -> (TokenStream, TokenStream, TokenStream, TokenStream, TokenStream) {
        let ks = k.to_string();
        let t = self.get("loop", &ks).unwrap_or_default();
        let i = self.text(t);
        let inv = quote!(__v_inv!(#i););
        (inv, self.ghost("body", &ks), self.ghost("end", &ks), self.ghost("pre", &ks), self.ghost("post", &ks))
    }

    fn stmt_name(s: &Stmt) -> Option<String> {
        fn pat(p: &Pat) -> Option<String> {
            match p {
                Pat::Ident(i) => Some(i.ident.to_string()),
                Pat::Type(t) => pat(&t.pat),
                Pat::Tuple(t) => t.elems.first().and_then(pat),
                _ => None,
            }
        }
        fn base(e: &Expr) -> Option<String> {
            match e {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                Expr::Index(i) => base(&i.expr),
                Expr::Field(f) => match &*f.base {
                    Expr::Path(p) if p.path.is_ident("self") => match &f.member {
                        Member::Named(n) => Some(n.to_string()),
                        _ => None,
                    },
                    b => base(b),
                },
                Expr::MethodCall(m) => base(&m.receiver),
                Expr::Reference(r) => base(&r.expr),
                Expr::Unary(u) => base(&u.expr),
                _ => None,
            }
        }
        match s {
            Stmt::Local(l) => pat(&l.pat),
            Stmt::Expr(Expr::Assign(a), _) => base(&a.left),
            Stmt::Expr(Expr::Binary(b), _) => base(&b.left),
            Stmt::Expr(Expr::MethodCall(m), Some(_)) => base(&m.receiver),
            _ => None,
        }
    }
}

/// the literal with `{}` for its only hole, and the name in the hole
fn one_hole(l: &str) -> Option<(String, Option<String>)> {
    if l.contains("{{") || l.contains("}}") {
        return None;
    }
    let (a, r) = l.split_once('{')?;
    let (h, b) = r.split_once('}')?;
    if b.contains('{') || h.contains(':') {
        return None;
    }
    Some((format!("{a}{{}}{b}"), if h.is_empty() { None } else { Some(h.to_string()) }))
}

/// `#[cfg(feature = "..")]`: no feature is on by default
fn switched_off(s: &Stmt) -> bool {
    let attrs: &[Attribute] = match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(Expr::Call(c), _) => &c.attrs,
        Stmt::Expr(Expr::MethodCall(c), _) => &c.attrs,
        Stmt::Expr(Expr::Block(c), _) => &c.attrs,
        _ => &[],
    };
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "").starts_with("cfg(feature="))
}

/// the postcondition of a closure whose body is a comparison, one operation or a projection of its
/// arguments: what the body says, in the terms of the operators' contracts
fn closure_spec(c: &ExprClosure) -> Option<String> {
    if c.capture.is_some() || c.asyncness.is_some() {
        return None;
    }
    let mut ps = vec![];
    let mut lets = String::new();
    for (n, p) in c.inputs.iter().enumerate() {
        let (p, ty) = match p {
            Pat::Type(t) => ((*t.pat).clone(), Some(tokens_of(&t.ty))),
            p => (p.clone(), None),
        };
        // only types that the extraction does not rewrite
        if ty.as_deref().is_some_and(|t| t.contains("f64") || t.contains("Vec") || t.contains("Array")) {
            return None;
        }
        ps.push(match ty {
            Some(t) => format!("__p{n}: {t}"),
            None => format!("__p{n}"),
        });
        match p {
            Pat::Reference(r) => lets.push_str(&format!("let {} = *__p{n}; ", simple_pat(&r.pat)?)),
            Pat::Wild(_) => {}
            p => lets.push_str(&format!("let {} = __p{n}; ", simple_pat(&p)?)),
        }
    }
    let mut body = &*c.body;
    while let Expr::Block(b) = body {
        match b.block.stmts.as_slice() {
            [Stmt::Expr(e, None)] => body = e,
            _ => return None,
        }
    }
    let (ret, post) = match body {
        Expr::Binary(b) if op_en(&b.op).is_some() => {
            ("_", format!("{}({}, {}, __b)", op_en(&b.op)?, operand(&b.left)?, operand(&b.right)?))
        }
        e => match cond_spec(e) {
            Some(s) => ("bool", format!("__b == {s}")),
            None => ("_", format!("__b == {}", operand(e)?)),
        },
    };
    Some(format!("|{}| -> (__b: {ret}) ensures ({{ {lets}{post} }})", ps.join(", ")))
}
fn tokens_of<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn simple_pat(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => Some(i.ident.to_string()),
        Pat::Wild(_) => Some("_".into()),
        Pat::Paren(p) => simple_pat(&p.pat),
        Pat::Tuple(t) => {
            let v: Option<Vec<String>> = t.elems.iter().map(simple_pat).collect();
            Some(format!("({})", v?.join(", ")))
        }
        _ => None,
    }
}
fn op_en(o: &BinOp) -> Option<&'static str> {
    Some(match o {
        BinOp::Add(_) => "XAdd::add_en",
        BinOp::Sub(_) => "XSub::sub_en",
        BinOp::Mul(_) => "XMul::mul_en",
        BinOp::Div(_) => "XDiv::div_en",
        _ => return None,
    })
}
/// a comparison, or a combination of comparisons
fn cond_spec(e: &Expr) -> Option<String> {
    match e {
        Expr::Paren(p) => cond_spec(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => Some(format!("!({})", cond_spec(expr)?)),
        Expr::Binary(b) => {
            let cmp = |f: &str| Some(format!("{f}({}, {})", operand(&b.left)?, operand(&b.right)?));
            match b.op {
                BinOp::And(_) => Some(format!("({} && {})", cond_spec(&b.left)?, cond_spec(&b.right)?)),
                BinOp::Or(_) => Some(format!("({} || {})", cond_spec(&b.left)?, cond_spec(&b.right)?)),
                BinOp::Lt(_) => cmp("XCmp::slt"),
                BinOp::Le(_) => cmp("XCmp::sle"),
                BinOp::Gt(_) => cmp("XCmp::sgt"),
                BinOp::Ge(_) => cmp("XCmp::sge"),
                BinOp::Eq(_) => cmp("XEq::seq_"),
                BinOp::Ne(_) => Some(format!("!{}", cmp("XEq::seq_")?)),
                _ => None,
            }
        }
        _ => None,
    }
}
fn operand(e: &Expr) -> Option<String> {
    match e {
        Expr::Paren(p) => operand(&p.expr),
        Expr::Path(p) if p.path.get_ident().is_some() && p.qself.is_none() => Some(tokens_of(p)),
        Expr::Field(f) => {
            let m = match &f.member {
                Member::Named(n) => n.to_string(),
                Member::Unnamed(n) => n.index.to_string(),
            };
            Some(format!("{}.{m}", operand(&f.base)?))
        }
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Some(format!("(*{})", operand(expr)?)),
        Expr::Reference(r) if r.mutability.is_none() => Some(format!("(&{})", operand(&r.expr)?)),
        Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Bool(_), .. }) => Some(tokens_of(e)),
        _ => None,
    }
}

fn stmt(t: TokenStream) -> Stmt {
    parse2(t).expect("statement")
}

fn lit_expr(s: &str, neg: bool) -> R<Expr> {
    let t = s.trim_end_matches("f64").replace('_', "");
    let (m, e) = match t.to_lowercase().split_once('e') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().map_err(|e| e.to_string())?),
        None => (t.clone(), 0),
    };
    let (a, b) = m.split_once('.').unwrap_or((&m, ""));
    let mut n: i128 = format!("{a}{b}").parse().map_err(|_| format!("literal {s}"))?;
    let mut d: i128 = 1;
    let mut sc = b.len() as i32 - e;
    while sc > 0 {
        d *= 10;
        sc -= 1;
    }
    while sc < 0 {
        n *= 10;
        sc += 1;
    }
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    let g = gcd(n.max(1), d);
    if n == 0 {
        d = 1;
    } else {
        n /= g;
        d /= g;
    }
    let (n, d) = (proc_macro2::Literal::i128_unsuffixed(n), proc_macro2::Literal::i128_unsuffixed(d));
    Ok(if neg { parse_quote!(lit(-#n, #d)) } else { parse_quote!(lit(#n, #d)) })
}

fn diverges(s: &Stmt) -> bool {
    matches!(s, Stmt::Expr(Expr::Return(_), _) | Stmt::Expr(Expr::Continue(_), _) | Stmt::Expr(Expr::Break(_), _))
}

impl<'a> VisitMut for X<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Path(p) => {
                let last = p.path.segments.last().unwrap().clone();
                let n = last.ident.to_string();
                let sp = last.ident.span();
                match n.as_str() {
                    "f64" => *t = Type::Path(parse_quote!(F)),
                    "Box" => {
                        if quote!(#t).to_string().contains("GridFunctions3D") {
                            *t = Type::Path(parse_quote!(GridBox));
                        }
                    }
                    "Result" => {
                        if let PathArguments::AngleBracketed(a) = &last.arguments {
                            if a.args.len() == 1 {
                                let x = &a.args[0];
                                *t = Type::Path(parse_quote!(Result<#x, XErr>));
                            } else if a.args.len() == 2 {
                                let x = &a.args[0];
                                *t = Type::Path(parse_quote!(Result<#x, XErr>));
                            }
                        }
                    }
                    // an owned array written out: ArrayBase<OwnedRepr<T>, Dim<[usize; n]>>
                    "ArrayBase" => {
                        let s = quote!(#last).to_string().replace(' ', "");
                        let hit = s.split_once("OwnedRepr<").and_then(|(_, r)| r.split_once(">,")).and_then(|(a, r)| Some((a.to_string(), r.split_once("[usize;")?.1.split_once(']')?.0.to_string())));
                        match hit.and_then(|(a, n)| parse_str::<Type>(&format!("Array{n}<{a}>")).ok()) {
                            Some(x) => *t = x,
                            None => self.errors.push(format!("type {s}")),
                        }
                    }
                    "ArrayView1" | "ArrayView2" | "ArrayView3" => {
                        let id = Ident::new(&n.replace("View", ""), sp);
                        let ar = last.arguments;
                        *t = Type::Path(parse_quote!(#id #ar));
                    }
                    _ => {
                        if p.path.segments.len() > 1 {
                            let first = p.path.segments[0].ident.to_string();
                            if first == "ndarray" || first == "super" || first == "crate" || first == "grid" {
                                *t = Type::Path(parse_quote!(#last));
                            }
                        }
                    }
                }
            }
            Type::TraitObject(_) => {}
            _ => {}
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        // nested functions first: they are visible in the whole block
        let depth = self.local_fns.len();
        for s in &b.stmts {
            if let Stmt::Item(Item::Fn(f)) = s {
                let i = self.nested.len();
                let mut sig = f.sig.clone();
                sig.ident = format_ident!("{}__{}", f.sig.ident, i);
                self.nested_base = format!("_{}", f.sig.ident);
                self.local_fns.push((f.sig.ident.to_string(), i));
                self.nested.push((sig, (*f.block).clone()));
            }
        }
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            if switched_off(&s) {
                continue;
            }
            let name = Self::stmt_name(&s);
            let mut after = quote!();
            if let Some(n) = &name {
                let k = self.ndup.entry(n.clone()).or_insert(0);
                let key = format!("{n}#{k}");
                *k += 1;
                let first = key.ends_with("#0");
                let mut bf = self.ghost("before", &key);
                after = self.ghost("after", &key);
                if first && bf.is_empty() {
                    bf = self.ghost("before", n);
                }
                if first && after.is_empty() {
                    after = self.ghost("after", n);
                }
                if !bf.is_empty() {
                    out.push(stmt(bf));
                }
            }
            let div = diverges(&s);
            match s {
                Stmt::Item(Item::Fn(_)) => {}
                Stmt::Item(Item::Type(_)) => {}
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Const(c)) => {
                    let (id, mut ty, mut e) = (c.ident, *c.ty, *c.expr);
                    self.visit_type_mut(&mut ty);
                    self.visit_expr_mut(&mut e);
                    out.push(parse_quote!(let #id: #ty = #e;));
                }
                Stmt::Item(_) => self.errors.push("nested item".into()),
                Stmt::Macro(m) => match self.mac(&m.mac) {
                    Ok(None) => {}
                    Ok(Some(e)) => out.push(Stmt::Expr(e, m.semi_token)),
                    Err(e) => self.errors.push(e),
                },
                Stmt::Local(mut l) => {
                    // a message only used by a dropped macro
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        if i.ident.to_string().starts_with('_') {
                            if let Expr::MethodCall(m) = &*init.expr {
                                if m.method == "to_string" {
                                    continue;
                                }
                            }
                        }
                    }
                    // a variable that holds a function pointer
                    if let Pat::Type(t) = &l.pat {
                        let ty = &t.ty;
                        if quote!(#ty).to_string() == "FnPointer" || matches!(&*t.ty, Type::BareFn(_)) {
                            if let Pat::Ident(i) = &*t.pat {
                                self.fnvars.insert(i.ident.to_string());
                                let mut p = (*t.pat).clone();
                                if let Pat::Ident(i) = &mut p {
                                    i.mutability = None;
                                }
                                l.pat = p;
                                if l.init.is_none() {
                                    let p = &l.pat;
                                    out.push(parse_quote!(let #p: usize;));
                                    continue;
                                }
                            }
                        }
                    }
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        if matches!(&*init.expr, Expr::MethodCall(m) if m.method == "slice_mut") {
                            self.mutviews.insert(i.ident.to_string());
                        }
                    }
                    self.visit_local_mut(&mut l);
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, semi));
                }
            }
            if !after.is_empty() {
                out.push(stmt(after));
            }
            if div {
                break; // unreachable code is not translated
            }
        }
        self.local_fns.truncate(depth);
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // match x { Ok(v) => v, Err(_) => panic!(..) } is x.unwrap_or_else(|_| panic!(..))
        if let Expr::Match(m) = e {
            if is_unwrap(m) {
                let x = &m.expr;
                *e = parse_quote!(#x.unwrap_or_else(|_| panic!()));
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let k = self.nloop;
                self.nloop += 1;
                let (iv, nv, cv) = (format_ident!("__i{}", k), format_ident!("__n{}", k), format_ident!("__c{}", k));
                let mut src = (*f.expr).clone();
                while let Expr::Paren(p) = src {
                    src = *p.expr;
                }
                let range = match src.clone() {
                    Expr::Range(r) => Some(r),
                    _ => None,
                };
                let (inv, bd, en, pr, po) = self.loop_marks(k);
                let mut pat = (*f.pat).clone();
                self.visit_pat_mut(&mut pat);
                let mut source: Option<Expr> = None;
                let head = if let Some(r) = range {
                    let (Some(a), Some(b)) = (r.start, r.end) else {
                        self.errors.push("open range".into());
                        return;
                    };
                    let (mut a, mut b) = (*a, *b);
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    let hi: Expr = match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!(XUse::x_use(#b)),
                        RangeLimits::Closed(_) => parse_quote!(XAdd::x_add(#b, 1)),
                    };
                    (quote!(let mut #iv: usize = XUse::x_use(#a); let #nv: usize = #hi;), quote!(let #pat = #iv;))
                } else {
                    self.visit_expr_mut(&mut src);
                    source = Some(src.clone());
                    (quote!(let #nv: usize = #cv.len_(); let mut #iv: usize = 0;), quote!(let #pat = #cv.at_(#iv);))
                };
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let st = body.stmts;
                let (h0, h1) = head;
                *e = parse_quote!({
                    #h0
                    #pr
                    while #iv < #nv {
                        #inv
                        #h1
                        #iv = #iv + 1;
                        #bd
                        #(#st)*
                        #en
                    }
                    #po
                });
                // temporaries of the iterated expression live as long as the loop
                if let Some(x) = source {
                    *e = parse_quote!(match XFor::x_for(#x) { #cv => #e });
                }
                return;
            }
            Expr::While(w) => {
                let k = self.nloop;
                self.nloop += 1;
                let (inv, bd, en, pr, po) = self.loop_marks(k);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (c, st) = (&w.cond, &w.body.stmts);
                *e = parse_quote!({ #pr while #c { #inv #bd #(#st)* #en } #po });
                return;
            }
            Expr::Loop(_) => {
                self.errors.push("loop".into());
                return;
            }
            Expr::Closure(c) => {
                let k = self.nclo;
                self.nclo += 1;
                let t = self.get("closure", &k.to_string());
                for p in c.inputs.iter_mut() {
                    self.visit_pat_mut(p);
                }
                let auto = if t.is_none() { closure_spec(c) } else { None };
                self.visit_expr_mut(&mut c.body);
                if let Some(t) = t.or(auto) {
                    let i = self.text(t);
                    let mut lets: Vec<Stmt> = vec![];
                    for (n, p) in c.inputs.iter().enumerate() {
                        let v = format_ident!("__p{}", n);
                        let p: Pat = match p {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        if let Pat::Reference(r) = &p {
                            let q = &r.pat;
                            lets.push(parse_quote!(let #q = *#v;));
                        } else {
                            lets.push(parse_quote!(let #p = #v;));
                        }
                    }
                    let b = &c.body;
                    *e = parse_quote!(__v_clo!(#i, { #(#lets)* #b }));
                }
                return;
            }
            Expr::Macro(m) => {
                match self.mac(&m.mac) {
                    Ok(Some(x)) => *e = x,
                    Ok(None) => *e = parse_quote!(()),
                    Err(x) => self.errors.push(x),
                }
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => {
                let n = proc_macro2::Literal::u8_suffixed(b.value());
                *e = parse_quote!(#n);
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                match lit_expr(&f.to_string(), false) {
                    Ok(x) => *e = x,
                    Err(x) => self.errors.push(x),
                }
                return;
            }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => {
                if let Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) = &**expr {
                    match lit_expr(&f.to_string(), true) {
                        Ok(x) => *e = x,
                        Err(x) => self.errors.push(x),
                    }
                    return;
                }
                if let Expr::Lit(_) = &**expr {
                    return;
                }
                self.visit_expr_mut(expr);
                *e = parse_quote!(XNeg::x_neg(#expr));
                return;
            }
            Expr::Cast(c) => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                let t = &c.ty;
                match quote!(#t).to_string().as_str() {
                    "f64" => *e = parse_quote!(XF::x_f(#x)),
                    "usize" => *e = parse_quote!(XU::x_us(#x)),
                    "f32" => *e = parse_quote!(X32::x_f32(#x)),
                    t @ ("u64" | "i64" | "i32" | "u32" | "isize") => {
                        let (t, m) = (format_ident!("X{}", t), format_ident!("x_{}", t));
                        *e = parse_quote!(#t::#m(#x))
                    }
                    t => self.errors.push(format!("cast to {t}")),
                }
                return;
            }
            Expr::Binary(b) => {
                self.visit_expr_mut(&mut b.left);
                self.visit_expr_mut(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                use BinOp::*;
                let bin = |t: &str, m: &str| -> Expr {
                    let (t, m) = (format_ident!("{}", t), format_ident!("{}", m));
                    parse_quote!(#t::#m(#l, #r))
                };
                let asg = |t: &str, m: &str| -> Expr {
                    let (t, m) = (format_ident!("{}", t), format_ident!("{}", m));
                    // `*x += v` on a reference
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &**l {
                        return parse_quote!({ let __v = #r; #t::#m(#expr, __v) });
                    }
                    // `x += v` on a mutable view
                    if let Expr::Path(p) = &**l {
                        if p.path.get_ident().is_some_and(|i| self.mutviews.contains(&i.to_string())) {
                            return parse_quote!({ let __v = #r; #t::#m(&mut *#l, __v) });
                        }
                    }
                    parse_quote!({ let __v = #r; #t::#m(&mut #l, __v) })
                };
                *e = match b.op {
                    Add(_) => bin("XAdd", "x_add"),
                    Sub(_) => bin("XSub", "x_sub"),
                    Mul(_) => bin("XMul", "x_mul"),
                    Div(_) => bin("XDiv", "x_div"),
                    Rem(_) => bin("XRem", "x_rem"),
                    Lt(_) => bin("XCmp", "x_lt"),
                    Le(_) => bin("XCmp", "x_le"),
                    Gt(_) => bin("XCmp", "x_gt"),
                    Ge(_) => bin("XCmp", "x_ge"),
                    Eq(_) => bin("XEq", "x_eq"),
                    Ne(_) => {
                        let x = bin("XEq", "x_eq");
                        parse_quote!(!#x)
                    }
                    And(_) | Or(_) => return,
                    AddAssign(_) => asg("XAddAssign", "x_add_assign"),
                    SubAssign(_) => asg("XSubAssign", "x_sub_assign"),
                    MulAssign(_) => asg("XMulAssign", "x_mul_assign"),
                    DivAssign(_) => asg("XDivAssign", "x_div_assign"),
                    o => {
                        self.errors.push(format!("operator {}", quote!(#o)));
                        return;
                    }
                };
                return;
            }
            Expr::Assign(a) => {
                // assignment of a nested function to a function pointer
                if let (Expr::Path(l), Expr::Path(r)) = (&*a.left, &*a.right) {
                    if let (Some(l), Some(r)) = (l.path.get_ident(), r.path.get_ident()) {
                        if self.fnvars.contains(&l.to_string()) {
                            if let Some((_, i)) = self.local_fns.iter().rev().find(|x| *r == x.0) {
                                let i = proc_macro2::Literal::usize_unsuffixed(*i);
                                *e = parse_quote!(#l = #i);
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                    if p.path.is_ident("Err") && is_message(&c.args[0]) {
                        c.args[0] = parse_quote!(XErr {});
                        return;
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().unwrap().ident == "black_box" && c.args.len() == 1 {
                        *e = c.args[0].clone();
                        self.visit_expr_mut(e);
                        return;
                    }
                    let n = p.path.segments.len();
                    // f64::sqrt(x) is x.sqrt()
                    if n >= 2 && c.args.len() >= 1 && (p.path.segments[n - 2].ident == "f64" || p.path.segments[n - 2].ident == "usize") {
                        let m = p.path.segments[n - 1].ident.clone();
                        let a = c.args[0].clone();
                        let rest: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                        *e = parse_quote!((#a).#m(#(#rest),*));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if let Expr::Path(p) = &mut *c.func {
                    if let Some(id) = p.path.get_ident() {
                        let id = id.to_string();
                        if self.fnvars.contains(&id) {
                            let f = format_ident!("__call{}", self.nested_base);
                            let v = format_ident!("{}", id);
                            let a = &c.args;
                            *e = parse_quote!(#f(#v, #a));
                            return;
                        }
                        if let Some((n, i)) = self.local_fns.iter().rev().find(|x| id == x.0) {
                            let f = format_ident!("{}__{}", n, i);
                            let a = &c.args;
                            *e = parse_quote!(#f(#a));
                            return;
                        }
                    }
                    // functions of the converter's modules
                    if p.path.segments.len() > 1 && (p.path.segments[0].ident == "convertertools" || p.path.segments[0].ident == "csv_modes") {
                        let last = p.path.segments.last().unwrap().clone();
                        p.path = parse_quote!(crate::#last);
                    }
                    if tokens_of(&p.path).replace(' ', "") == "std::fs::read_dir" {
                        p.path = parse_quote!(fs_read_dir);
                    }
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "ndarray" && p.path.segments[1].ident == "Axis" {
                        p.path = parse_quote!(Axis);
                    }
                    for s in p.path.segments.iter_mut() {
                        self.visit_path_arguments_mut(&mut s.arguments);
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    if n >= 2 {
                        let (o, m) = (segs[n - 2].as_str(), segs[n - 1].as_str());
                        let args = &c.args;
                        let oseg = p.path.segments[n - 2].clone();
                        if o.starts_with("Array") && o.len() <= 6 {
                            let generic: TokenStream = match o {
                                "Array" => quote!(_),
                                _ => {
                                    let id = &oseg.ident;
                                    match &oseg.arguments {
                                        PathArguments::AngleBracketed(a) => {
                                            let a = &a.args;
                                            quote!(#id<#a>)
                                        }
                                        _ => quote!(#id<_>),
                                    }
                                }
                            };
                            match m {
                                "zeros" => *e = parse_quote!(arr_zeros::<#generic, _>(#args)),
                                "ones" => *e = parse_quote!(arr_ones::<#generic, _>(#args)),
                                "from_elem" if o == "Array2" => *e = parse_quote!(arr2_from_elem(#args)),
                                "from_elem" => *e = parse_quote!(arr1_from_elem(#args)),
                                "linspace" => *e = parse_quote!(arr1_linspace(#args)),
                                "from_shape_vec" if matches!(args.first(), Some(Expr::Tuple(t)) if t.elems.len() == 2) => *e = parse_quote!(arr2_from_shape_vec(#args)),
                                "from_shape_vec" => *e = parse_quote!(arr3_from_shape_vec(#args)),
                                m => self.errors.push(format!("{o}::{m}")),
                            }
                            return;
                        }
                        if o == "Box" && m == "new" {
                            *e = parse_quote!(IntoBox::into_box(#args));
                            return;
                        }
                    }
                } else {
                    self.visit_expr_mut(&mut c.func);
                }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // (a..b).iter_method(..)
                let mut inner = (*m.receiver).clone();
                while let Expr::Paren(p) = inner {
                    inner = *p.expr;
                }
                // (a..=b).contains(&x)
                if let (Expr::Range(r), "contains", Some(Expr::Reference(x))) = (&inner, name.as_str(), m.args.first()) {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let x = &x.expr;
                        let mut q: Expr = match r.limits {
                            RangeLimits::HalfOpen(_) => parse_quote!(#x >= #a && #x < #b),
                            RangeLimits::Closed(_) => parse_quote!(#x >= #a && #x <= #b),
                        };
                        self.visit_expr_mut(&mut q);
                        *e = parse_quote!((#q));
                        return;
                    }
                }
                if let Expr::Range(r) = inner {
                    if let (Some(a), Some(b)) = (r.start, r.end) {
                        m.receiver = Box::new(match r.limits {
                            RangeLimits::HalfOpen(_) => parse_quote!(x_range(XUse::x_use(#a), XUse::x_use(#b))),
                            RangeLimits::Closed(_) => parse_quote!(x_range(XUse::x_use(#a), XAdd::x_add(XUse::x_use(#b), 1))),
                        });
                    }
                }
                // slices
                if name == "slice" || name == "slice_mut" {
                    if let Some(Expr::Macro(mm)) = m.args.first() {
                        if mm.mac.path.segments.last().unwrap().ident == "s" {
                            let mac = mm.mac.clone();
                            self.visit_expr_mut(&mut m.receiver);
                            let r = (*m.receiver).clone();
                            match self.slice(&r, &mac, name == "slice_mut") {
                                Ok(x) => *e = x,
                                Err(x) => self.errors.push(x),
                            }
                            return;
                        }
                    }
                }
                if name == "unwrap_or_else" {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        if is_panic(&c.body) {
                            self.visit_expr_mut(&mut m.receiver);
                            let r = &m.receiver;
                            *e = parse_quote!(#r.unwrap());
                            return;
                        }
                    }
                }
                if name == "expect" {
                    self.visit_expr_mut(&mut m.receiver);
                    let r = &m.receiver;
                    *e = parse_quote!(#r.unwrap());
                    return;
                }
                visit_mut::visit_expr_method_call_mut(self, m);
                let new = match name.as_str() {
                    "iter" => "x_iter",
                    "into_iter" => "x_for",
                    "contains" if matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) => "x_contains_text",
                    "contains" => "x_contains",
                    "ends_with" => "x_ends_with",
                    "collect" if m.turbofish.as_ref().is_some_and(|t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Result<Vec<_>,")) => {
                        m.turbofish = None;
                        "x_collect_all"
                    }
                    "resize" => "x_resize",
                    "min" if m.args.len() == 1 => "x_min",
                    "max" if m.args.len() == 1 => "x_max",
                    "wrapping_sub" => "x_wrapping_sub",
                    "to_owned" | "clone" | "view" => "own",
                    "as_bytes" => "x_bytes",
                    "collect" => "x_collect",
                    "column" => "slice_ai",
                    "row" => "slice_ia",
                    "row_mut" => "slice_mut_ia",
                    "sort_by" => "x_sort_by",
                    "sort_by_key" | "sort_by_cached_key" => "x_sort_by_key",
                    "sort_unstable_by" => "x_sort_unstable_by",
                    "sort_unstable_by_key" => "x_sort_unstable_by_key",
                    "sum" => {
                        m.turbofish = None;
                        "sum"
                    }
                    _ => return,
                };
                m.method = Ident::new(new, m.method.span());
                return;
            }
            Expr::Try(t) => {
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(__e) });
                return;
            }
            Expr::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "std::f64::consts::PI" | "f64::consts::PI" => *e = parse_quote!(f_pi()),
                    "f64::NAN" | "std::f64::NAN" => *e = parse_quote!(f_nan()),
                    "std::path::MAIN_SEPARATOR" | "MAIN_SEPARATOR" => *e = parse_quote!(main_separator()),
                    "f64::EPSILON" | "std::f64::EPSILON" => *e = lit_expr("2.220446049250313e-16", false).unwrap(),
                    "f64::MAX" | "std::f64::MAX" => *e = parse_quote!(f_max()),
                    "f64::MIN" | "std::f64::MIN" => *e = parse_quote!(f_min()),
                    "f64::NEG_INFINITY" | "std::f64::NEG_INFINITY" => *e = parse_quote!(f_ninf()),
                    "f64::INFINITY" | "std::f64::INFINITY" => *e = parse_quote!(f_inf()),
                    _ => {}
                }
                return;
            }
            Expr::Paren(p) => {
                // a parenthesis around what has become a call
                self.visit_expr_mut(&mut p.expr);
                if matches!(&*p.expr, Expr::Call(_) | Expr::Path(_) | Expr::MethodCall(_)) {
                    let x = (*p.expr).clone();
                    *e = x;
                }
                return;
            }
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) => {
                self.errors.push("unsupported expression".into());
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// two arms, `Ok(v) => v` and `Err(..) => panic!(..)`
fn is_unwrap(m: &syn::ExprMatch) -> bool {
    let inner = |p: &Pat, n: &str| match p {
        Pat::TupleStruct(t) if t.path.is_ident(n) && t.elems.len() == 1 => Some(t.elems[0].clone()),
        _ => None,
    };
    if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) {
        return false;
    }
    let (a, b) = (&m.arms[0], &m.arms[1]);
    let (a, b) = if inner(&a.pat, "Ok").is_some() { (a, b) } else { (b, a) };
    match (inner(&a.pat, "Ok"), inner(&b.pat, "Err"), &*a.body) {
        (Some(Pat::Ident(v)), Some(_), Expr::Path(p)) => v.subpat.is_none() && p.path.is_ident(&v.ident) && is_panic(&b.body),
        _ => false,
    }
}

fn is_panic(e: &Expr) -> bool {
    match e {
        Expr::Macro(m) => m.mac.path.is_ident("panic"),
        Expr::Block(b) => match b.block.stmts.as_slice() {
            [Stmt::Expr(e, _)] => is_panic(e),
            [Stmt::Macro(m)] => m.mac.path.is_ident("panic"),
            _ => false,
        },
        _ => false,
    }
}

/// the text of an error: a literal, possibly formatted or converted
fn is_message(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Expr::Macro(m) => m.mac.path.is_ident("format") || m.mac.path.is_ident("concat"),
        Expr::MethodCall(m) => m.args.is_empty() && is_message(&m.receiver),
        _ => false,
    }
}
