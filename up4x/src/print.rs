//! Token printer: one statement per line, ghost text in place of the markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

pub fn tokens<T: ToTokens>(t: &T) -> String {
    let mut p = P { out: String::new(), lines: vec![], texts: &[], line: 0 };
    p.stream(t.to_token_stream(), 0);
    p.out.trim().to_string()
}
/// text of the block and (output line, source line) pairs
pub fn block(b: &syn::Block, texts: &[String]) -> (String, Vec<(usize, usize)>) {
    let mut p = P { out: String::new(), lines: vec![], texts, line: 0 };
    p.stream(b.to_token_stream(), 0);
    (p.out, p.lines)
}
struct P<'a> {
    out: String,
    lines: Vec<(usize, usize)>,
    texts: &'a [String],
    line: usize,
}
impl<'a> P<'a> {
    fn nl(&mut self, ind: usize) {
        self.out.push('\n');
        self.line += 1;
        for _ in 0..ind {
            self.out.push_str("    ");
        }
    }
    fn text(&mut self, i: usize, ind: usize) {
        for l in self.texts[i].clone().lines() {
            if !l.trim().is_empty() {
                self.nl(ind);
                self.out.push_str(l.trim());
            }
        }
    }
    fn mark(&mut self, t: &TokenTree) {
        let l = t.span().start().line;
        if l > 0 && self.lines.last().map(|x| x.0) != Some(self.line) {
            self.lines.push((self.line, l));
        }
    }
    /// `name ! ( index ... )` at position i
    fn marker(v: &[TokenTree], i: usize) -> Option<(String, TokenStream)> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
            let n = id.to_string();
            if p.as_char() == '!' && n.starts_with("__v_") {
                return Some((n, g.stream()));
            }
        }
        None
    }
    fn stream(&mut self, s: TokenStream, ind: usize) {
        let v: Vec<TokenTree> = s.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some((n, g)) = Self::marker(&v, i) {
                let inner: Vec<TokenTree> = g.into_iter().collect();
                let k: usize = inner[0].to_string().parse().unwrap();
                match n.as_str() {
                    "__v_ghost" | "__v_inv" => {
                        self.text(k, ind);
                        self.nl(ind);
                        i += 3;
                        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                            i += 1;
                        }
                    }
                    _ => {
                        // __v_clo!(k, { body })
                        self.text(k, ind);
                        self.out.push(' ');
                        self.stream(inner[2..].iter().cloned().collect(), ind);
                        i += 3;
                    }
                }
                continue;
            }
            let t = &v[i];
            self.mark(t);
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if a == "{" {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut rest = g.stream();
                        if let Some((n, k)) = Self::marker(&inner, 0) {
                            if n == "__v_inv" {
                                let k: usize = k.to_string().parse().unwrap();
                                self.text(k, ind + 1);
                                self.nl(ind);
                                rest = inner[4..].iter().cloned().collect();
                            }
                        }
                        self.out.push('{');
                        self.nl(ind + 1);
                        self.stream(rest, ind + 1);
                        self.nl(ind);
                        self.out.push('}');
                        // new line unless the expression goes on
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if ";,.)".contains(p.as_char()) => {}
                            Some(TokenTree::Ident(x)) if x == "else" => self.out.push(' '),
                            None => {}
                            _ => self.nl(ind),
                        }
                    } else {
                        self.out.push_str(a);
                        self.stream(g.stream(), ind);
                        self.out.push_str(b);
                        self.out.push(' ');
                    }
                }
                TokenTree::Punct(p) => {
                    if p.as_char() == ';' {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                        self.out.push(';');
                        self.nl(ind);
                    } else {
                        self.out.push(p.as_char());
                        if p.spacing() == Spacing::Alone && p.as_char() != '&' {
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Ident(id) => {
                    self.out.push_str(&id.to_string());
                    self.out.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
