//! C23: a grammar's text is read and written back.
use crate::util::*;
use chomp::nibble::Statement;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;

#[derive(Clone)]
enum T {
    Leaf(String),
    Group(&'static str, &'static str, Vec<T>),
}
fn leaf(s: &str) -> T {
    T::Leaf(s.into())
}

const PLAIN: &[&str] = &["a", "b", "foo", "r#a", "r#match", "opt", "_x", "é"];
const ANY: &[&str] = &["a", "b", "r#let", "match", "let", "type", "self", "Self", "_x", "fn"];
const LITS: &[&str] = &["\"\"", "\"a\"", "\"b c\"", "r\"x\"", "r#\"y\"#", "\"\\n\"", "\"é\"", "\"s\"u8"];
const JUNK: &[&str] = &["_", "!", ".", "|", ":", "/", ";", "=", "match", "let", "a", "\"a\"", "1", "'c'", "b\"x\"", ",", "==", "::", "||", "->", "..", "'t", "type", "r#b"];

struct G<'r>(&'r mut Rng);
impl G<'_> {
    fn term(&mut self, d: usize, o: &mut Vec<T>) {
        match self.0.below(if d == 0 { 5 } else { 8 }) {
            0 => o.push(leaf("_")),
            1 | 2 => {
                let w = if self.0.chance(1, 5) { *self.0.pick(ANY) } else { *self.0.pick(PLAIN) };
                o.push(leaf(w))
            }
            3 | 4 => o.push(leaf(*self.0.pick(LITS))),
            5 => {
                o.push(leaf("!"));
                self.term(d - 1, o)
            }
            _ => {
                let mut i = Vec::new();
                self.expr(d - 1, &mut i);
                o.push(T::Group("(", ")", i))
            }
        }
    }
    fn few(&mut self) -> usize {
        if self.0.chance(1, 2) { 1 } else { 1 + self.0.below(3) }
    }
    fn alt(&mut self, d: usize, o: &mut Vec<T>) {
        for i in 0..self.few() {
            if i > 0 {
                o.push(leaf("|"));
            }
            for j in 0..self.few() {
                if j > 0 {
                    o.push(leaf("."));
                }
                for _ in 0..self.few() {
                    self.term(d, o);
                }
            }
            if self.0.chance(1, 4) {
                o.push(leaf(":"));
                o.push(leaf(*self.0.pick(ANY)));
            }
        }
    }
    fn expr(&mut self, d: usize, o: &mut Vec<T>) {
        if self.0.chance(1, 4) {
            o.push(leaf("/"));
            for _ in 0..self.few() {
                o.push(leaf(*self.0.pick(PLAIN)));
            }
            o.push(leaf("/"));
        }
        self.alt(d, o)
    }
    fn stmt(&mut self, o: &mut Vec<T>) {
        for _ in 0..self.0.below(3) {
            o.push(leaf("let"));
            o.push(leaf(*self.0.pick(ANY)));
            for _ in 0..self.0.below(3) {
                o.push(leaf(*self.0.pick(PLAIN)));
            }
            o.push(leaf("="));
            self.expr(2, o);
            o.push(leaf(";"));
        }
        o.push(leaf("match"));
        self.expr(3, o);
        o.push(leaf(";"));
    }
    fn junk(&mut self) -> T {
        match self.0.below(12) {
            0 => T::Group("(", ")", vec![leaf("a")]),
            1 => T::Group("(", ")", vec![]),
            2 => T::Group("[", "]", vec![leaf("a")]),
            3 => T::Group("{", "}", vec![leaf("a")]),
            _ => leaf(*self.0.pick(JUNK)),
        }
    }
    fn damage(&mut self, o: &mut Vec<T>) {
        let groups: Vec<usize> = (0..o.len()).filter(|&i| matches!(o[i], T::Group(..))).collect();
        if !groups.is_empty() && self.0.chance(1, 2) {
            let i = *self.0.pick(&groups);
            if let T::Group(_, _, x) = &mut o[i] {
                return self.damage(x);
            }
        }
        let n = o.len();
        match self.0.below(5) {
            0 if n > 0 => {
                o.remove(self.0.below(n));
            }
            1 if n > 0 => {
                let i = self.0.below(n);
                o[i] = self.junk();
            }
            2 if n > 1 => {
                let i = self.0.below(n - 1);
                o.swap(i, i + 1);
            }
            3 if n > 0 => {
                let i = self.0.below(n);
                let x = o[i].clone();
                o.insert(self.0.below(n + 1), x);
            }
            _ => {
                let i = self.0.below(n + 1);
                let x = self.junk();
                o.insert(i, x);
            }
        }
    }
}

fn show(v: &[T], o: &mut String) {
    for x in v {
        match x {
            T::Leaf(s) => {
                o.push_str(s);
                o.push(' ');
            }
            T::Group(a, b, i) => {
                o.push_str(a);
                show(i, o);
                o.push_str(b);
                o.push(' ');
            }
        }
    }
}

/// The tokens without positions and spacing.
fn flat(t: TokenStream, o: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                o.push(format!("{:?}(", g.delimiter()));
                flat(g.stream(), o);
                o.push(")".into());
            }
            TokenTree::Punct(p) => o.push(p.as_char().to_string()),
            x => o.push(x.to_string()),
        }
    }
}

// the syntax as it is described
struct R<'a>(&'a [TokenTree], usize);
impl R<'_> {
    fn p(&self, c: char) -> bool {
        matches!(self.0.get(self.1), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn any(&self) -> bool {
        matches!(self.0.get(self.1), Some(TokenTree::Ident(_)))
    }
    fn w(&self, s: &str) -> bool {
        matches!(self.0.get(self.1), Some(TokenTree::Ident(i)) if i == s)
    }
    fn plain(&self) -> bool {
        self.any() && syn::parse2::<syn::Ident>(self.0[self.1].clone().into()).is_ok()
    }
    fn lit(&self) -> bool {
        match self.0.get(self.1) {
            Some(TokenTree::Literal(l)) => {
                let s = l.to_string();
                s.starts_with('"') || s.starts_with("r\"") || s.starts_with("r#")
            }
            _ => false,
        }
    }
    fn group(&self) -> Option<Vec<TokenTree>> {
        match self.0.get(self.1) {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream().into_iter().collect()),
            _ => None,
        }
    }
    fn starts(&self) -> bool {
        self.any() || self.lit() || self.p('!') || self.group().is_some()
    }
    fn eat(&mut self, b: bool) -> bool {
        if b {
            self.1 += 1;
        }
        b
    }
    fn term(&mut self) -> bool {
        if self.p('!') {
            self.1 += 1;
            self.term()
        } else if let Some(g) = self.group() {
            self.1 += 1;
            let mut r = R(&g, 0);
            r.expr() && r.1 == g.len()
        } else {
            let b = self.any() || self.lit();
            self.eat(b)
        }
    }
    fn alt(&mut self) -> bool {
        loop {
            loop {
                if !self.term() {
                    return false;
                }
                while self.starts() {
                    if !self.term() {
                        return false;
                    }
                }
                if !self.p('.') {
                    break;
                }
                self.1 += 1;
            }
            if self.p(':') {
                self.1 += 1;
                if !self.any() {
                    return false;
                }
                self.1 += 1;
            }
            if !self.p('|') {
                return true;
            }
            self.1 += 1;
        }
    }
    fn expr(&mut self) -> bool {
        if self.p('/') {
            self.1 += 1;
            let s = self.1;
            while self.plain() {
                self.1 += 1;
            }
            if self.1 == s || !self.p('/') {
                return false;
            }
            self.1 += 1;
        }
        self.alt()
    }
    fn stmt(&mut self) -> bool {
        while self.w("let") {
            self.1 += 1;
            if !self.any() {
                return false;
            }
            self.1 += 1;
            while self.plain() {
                self.1 += 1;
            }
            let b = self.p('=');
            if !self.eat(b) || !self.expr() {
                return false;
            }
            let b = self.p(';');
            if !self.eat(b) {
                return false;
            }
        }
        let b = self.w("match");
        if !self.eat(b) || !self.expr() {
            return false;
        }
        let b = self.p(';');
        self.eat(b) && self.1 == self.0.len()
    }
}

pub fn reading(c: &mut Case) {
    let mut toks = Vec::new();
    let mut g = G(&mut c.rng);
    g.stmt(&mut toks);
    if g.0.chance(1, 2) {
        for _ in 0..1 + g.0.below(2) {
            g.damage(&mut toks);
        }
    }
    let mut text = String::new();
    show(&toks, &mut text);
    let text = text.trim_end().to_string();
    c.input(text.clone());
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return c.trivial(),
    };
    let list: Vec<TokenTree> = ts.clone().into_iter().collect();
    let want = R(&list, 0).stmt();
    match syn::parse2::<Statement>(ts.clone()) {
        Ok(s) => {
            c.check(want, || "the text is accepted although it is not of the syntax".into());
            let (mut a, mut b) = (Vec::new(), Vec::new());
            flat(s.to_token_stream(), &mut a);
            flat(ts, &mut b);
            c.eq("the tokens written back", a, b);
        }
        Err(e) => c.check(!want, || format!("the text is of the syntax but is refused: {}", e)),
    }
}
