//! C01-C06: the runtime library.
use crate::util::*;
use chewed::*;
use std::fmt;

pub const ALPHA: &[char] = &[
    'a', 'b', 'c', ',', ']', 'é', '\n', '\r', '\x0B', '\x0C', '\u{85}', '\u{2028}', '\u{2029}', '漢', '\u{1F600}', '\0', ' ', '\u{2027}', '\u{84}', '\t',
];

fn text(r: &mut Rng, alpha: &[char], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

/// Reference position of character number n.
pub fn position(s: &[char], n: usize) -> LineCol {
    let (mut line, mut col) = (1, 0);
    for i in 0..n {
        let brk = match s[i] {
            '\n' | '\x0B' | '\x0C' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => s.get(i + 1) != Some(&'\n'),
            _ => false,
        };
        if brk {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    LineCol { line, col }
}

pub fn cursor(c: &mut Case) {
    let small = c.rng.chance(1, 2);
    let alpha: &[char] = if small { &['a', '\n', '\r'] } else { ALPHA };
    let max = if small { 5 } else { 12 };
    let s = text(&mut c.rng, alpha, max);
    let nops = s.chars().count() * 3 + 4;
    let ops: String = (0..nops).map(|_| *c.rng.pick(&['n', 'p', 'o'])).collect();
    c.input(format!("source {:?}, calls {} (n=next p=peek o=pos)", s, ops));
    if s.is_empty() {
        c.trivial();
    }
    let v: Vec<char> = s.chars().collect();
    let mut p = IterWrapper::new(s.chars());
    let mut i = 0;
    for (k, o) in ops.chars().enumerate() {
        match o {
            'n' => {
                let g = p.next();
                if c.id == "C01" {
                    c.eq(&format!("call {} next", k), g, v.get(i).copied());
                }
                if i < v.len() {
                    i += 1;
                }
            }
            'p' => {
                let before = p.pos();
                let g = p.peek();
                if c.id == "C01" {
                    c.eq(&format!("call {} peek", k), g, v.get(i).copied());
                }
                c.eq(&format!("position across call {} peek", k), p.pos(), before);
            }
            _ => {}
        }
        if c.id == "C02" {
            c.eq(&format!("position after call {}", k), p.pos(), position(&v, i));
        }
    }
}

fn rest<P: Parser>(p: &mut P) -> String {
    let mut o = String::new();
    while let Some(x) = p.next() {
        o.push(x);
    }
    o
}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

/// A parser over s that has already read `skip` characters and maybe peeked.
fn start<'a>(r: &mut Rng, s: &'a str, skip: usize) -> IterWrapper<std::str::Chars<'a>> {
    let mut p = IterWrapper::new(s.chars());
    for _ in 0..skip {
        if r.chance(1, 2) {
            p.peek();
        }
        p.next();
    }
    if r.chance(1, 2) {
        p.peek();
    }
    p
}

pub fn literal(c: &mut Case) {
    let alpha: &[char] = if c.rng.chance(1, 2) { &['a', 'é', '漢', '\u{1F600}'] } else { ALPHA };
    let lit: &'static str = leak(text(&mut c.rng, alpha, 6));
    let pre = text(&mut c.rng, ALPHA, 3);
    let mut inp: Vec<char> = lit.chars().collect();
    match c.rng.below(4) {
        0 => {
            let n = c.rng.below(inp.len() + 1);
            inp.truncate(n);
        }
        1 if !inp.is_empty() => {
            let n = c.rng.below(inp.len());
            inp[n] = *c.rng.pick(ALPHA);
        }
        2 => {
            let n = c.rng.below(inp.len() + 1);
            inp.truncate(n);
            inp.extend(text(&mut c.rng, alpha, 4).chars());
        }
        _ => inp.extend(text(&mut c.rng, alpha, 4).chars()),
    }
    let tail: String = inp.iter().collect();
    let s = format!("{}{}", pre, tail);
    let v: Vec<char> = s.chars().collect();
    let off = pre.chars().count();
    c.input(format!("source {:?}, after {} characters, expected {:?}", s, off, lit));
    let mut p = start(&mut c.rng, &s, off);
    let l: Vec<char> = lit.chars().collect();
    let mut n = 0;
    while n < l.len() && off + n < v.len() && l[n] == v[off + n] {
        n += 1;
    }
    let at = position(&v, off + n);
    let want = if n == l.len() {
        Ok(())
    } else if off + n == v.len() {
        Err(TakeError::EndOfStream(at))
    } else {
        let mut q: String = l[..n].iter().collect();
        q.push(v[off + n]);
        Err(TakeError::BadString(at, q, lit))
    };
    c.eq("consume_str", p.consume_str(lit), want);
    c.eq("position", p.pos(), at);
    c.eq("rest", rest(&mut p), v[off + n..].iter().collect());
}

pub fn classes(c: &mut Case) {
    let s = text(&mut c.rng, &['a', 'b', 'c', '\n', '\r', 'é'], 8);
    let v: Vec<char> = s.chars().collect();
    let off = c.rng.below(v.len() + 1);
    let set: &'static Vec<char> = leak(text(&mut c.rng, &['a', 'b', 'é', '\n', '\r'], 4).chars().collect());
    if c.rng.chance(1, 2) {
        let len = c.rng.below(6);
        c.input(format!("source {:?} from {}, take_chars_from {:?} into {}", s, off, set, len));
        let mut p = start(&mut c.rng, &s, off);
        let mut buf = vec!['#'; len];
        let got = p.take_chars_from(set, &mut buf);
        let mut n = 0;
        while n < len && off + n < v.len() && set.contains(&v[off + n]) {
            n += 1;
        }
        let at = position(&v, off + n);
        let want = if n == len {
            Ok(())
        } else if off + n == v.len() {
            Err(TakeError::EndOfStream(at))
        } else {
            Err(TakeError::BadBranch(at, v[off + n], set))
        };
        let mut wb = vec!['#'; len];
        wb[..n].copy_from_slice(&v[off..off + n]);
        c.eq("take_chars_from", got, want);
        c.eq("buffer", buf, wb);
        c.eq("position", p.pos(), at);
        c.eq("rest", rest(&mut p), v[off + n..].iter().collect());
    } else {
        c.input(format!("source {:?} from {}, skip_while in {:?}", s, off, set));
        let mut p = start(&mut c.rng, &s, off);
        let mut asked = Vec::new();
        p.skip_while(|x| {
            asked.push(x);
            set.contains(&x)
        });
        let mut n = 0;
        while off + n < v.len() && set.contains(&v[off + n]) {
            n += 1;
        }
        c.eq("position", p.pos(), position(&v, off + n));
        c.eq("rest", rest(&mut p), v[off + n..].iter().collect());
    }
}

pub fn lists(c: &mut Case) {
    let s = text(&mut c.rng, &['a', 'a', 'b', ',', ',', ']', 'x', '\n'], 9);
    let v: Vec<char> = s.chars().collect();
    let sep = ',';
    let stop = *c.rng.pick(&[']', ']', ']', ',', 'a']);
    let first: &'static Vec<char> = leak(if c.rng.chance(1, 2) { vec!['a', 'b'] } else { vec!['a'] });
    let set: &'static Vec<char> = leak(vec![sep, stop]);
    let hungry = c.rng.chance(1, 3);
    c.input(format!("source {:?}, separator {:?}, stop {:?}, first {:?}, item parser {}", s, sep, stop, first, if hungry { "'a' or 'b' then any 'x'" } else { "'a' or 'b'" }));
    let item = move |at: usize, v: &[char]| -> (usize, Result<String, TakeError>) {
        // reference item parser: new offset and result
        match v.get(at) {
            None => (at, Err(TakeError::EndOfStream(position(v, at)))),
            Some('a') | Some('b') => {
                let mut n = at + 1;
                while hungry && v.get(n) == Some(&'x') {
                    n += 1;
                }
                (n, Ok(v[at..n].iter().collect()))
            }
            Some(x) => (at, Err(TakeError::BadBranch(position(v, at), *x, &['a', 'b']))),
        }
    };
    let mut calls = 0;
    let mut p = IterWrapper::new(s.chars());
    let mut got = Vec::new();
    {
        let mut it = p.iter_strict(
            |q: &mut IterWrapper<std::str::Chars<'_>>| {
                calls += 1;
                let mut o = String::new();
                match q.peek() {
                    None => return Err(TakeError::EndOfStream(q.pos())),
                    Some(x) if x == 'a' || x == 'b' => {
                        q.next();
                        o.push(x)
                    }
                    Some(x) => return Err(TakeError::BadBranch(q.pos(), x, &['a', 'b'])),
                }
                while hungry && q.peek() == Some('x') {
                    o.push('x');
                    q.next();
                }
                Ok(o)
            },
            sep,
            stop,
            set,
            first,
        );
        for _ in 0..6 {
            let r = it.next();
            let end = !matches!(r, Some(Ok(_)));
            got.push(r);
            if end {
                break;
            }
        }
    }
    let mut want = Vec::new();
    let mut at = 0;
    for _ in 0..6 {
        let r = if at >= v.len() || v[at] == stop {
            None
        } else {
            let (n, r) = item(at, &v);
            at = n;
            match r {
                Err(e) => Some(Err(e)),
                Ok(x) => {
                    if at >= v.len() {
                        Some(Err(TakeError::EndOfStream(position(&v, at))))
                    } else if v[at] == sep {
                        at += 1;
                        if at >= v.len() {
                            Some(Err(TakeError::EndOfStream(position(&v, at))))
                        } else if first.contains(&v[at]) {
                            Some(Ok(x))
                        } else {
                            Some(Err(TakeError::BadBranch(position(&v, at), v[at], first)))
                        }
                    } else if v[at] == stop {
                        Some(Ok(x))
                    } else {
                        Some(Err(TakeError::BadBranch(position(&v, at), v[at], set)))
                    }
                }
            }
        };
        let end = !matches!(r, Some(Ok(_)));
        want.push(r);
        if end {
            break;
        }
    }
    if calls == 0 {
        c.trivial();
    }
    c.eq("items", got, want);
    c.eq("position", p.pos(), position(&v, at));
    c.eq("rest", rest(&mut p), v[at..].iter().collect());
}

#[derive(Debug, PartialEq, Clone)]
struct Ab(String);
impl fmt::Display for Ab {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Parse for Ab {
    fn take<P: Parser + ?Sized>(p: &mut P) -> Result<Self, TakeError> {
        // "ab" repeated, followed by nothing else it knows about
        let mut o = String::new();
        while p.peek() == Some('a') {
            p.consume_str("ab")?;
            o.push_str("ab");
        }
        if p.peek() == Some('!') {
            return Err(TakeError::BadBranch(p.pos(), '!', &['a']));
        }
        Ok(Ab(o))
    }
}

pub fn whole(c: &mut Case) {
    let mut s = String::new();
    for _ in 0..c.rng.below(4) {
        s.push_str(c.rng.pick::<&str>(&["ab", "ab", "a", "b", "\n", "\r\n", "!", "é"]));
    }
    let how = c.rng.below(7);
    c.input(format!("{:?} as {}", s, ["parse_str", "boxed parse_str", "Parser::parse", "boxed Parser::parse", "Epsilon", "boxed Epsilon take_str", "take_str"][how]));
    let v: Vec<char> = s.chars().collect();
    // reference for Ab::take
    let mut n = 0;
    let taken: Result<Ab, TakeError> = loop {
        match v.get(n) {
            Some('a') => match v.get(n + 1) {
                Some('b') => n += 2,
                None => {
                    n += 1;
                    break Err(TakeError::EndOfStream(position(&v, n)));
                }
                Some(x) => {
                    n += 1;
                    break Err(TakeError::BadString(position(&v, n), format!("a{}", x), "ab"));
                }
            },
            Some('!') => break Err(TakeError::BadBranch(position(&v, n), '!', &['a'])),
            _ => break Ok(Ab(v[..n].iter().collect())),
        }
    };
    let want: Result<Ab, ParseError> = match &taken {
        Err(e) => Err(ParseError::TakeError(e.clone())),
        Ok(x) if n == v.len() => Ok(x.clone()),
        Ok(_) => Err(ParseError::InputContinues(position(&v, n))),
    };
    match how {
        0 => c.eq("result", Ab::parse_str(&s), want),
        1 => c.eq("result", <Box<Ab>>::parse_str(&s).map(|b| *b), want),
        2 => c.eq("result", IterWrapper::new(s.chars()).parse::<Ab>(), want),
        3 => {
            c.eq("result", <Box<Ab> as Parse>::parse(IterWrapper::new(s.chars())).map(|b| *b), want);
        }
        4 => {
            let w = if s.is_empty() { Ok(Epsilon) } else { Err(ParseError::InputContinues(LineCol { line: 1, col: 0 })) };
            c.eq("result", Epsilon::parse_str(&s), w);
            let mut p = IterWrapper::new(s.chars());
            c.eq("empty value", p.take::<Epsilon>(), Ok(Epsilon));
            c.eq("rest", rest(&mut p), s.clone());
        }
        5 => c.eq("result", <Box<Epsilon>>::take_str(&s), Ok(Box::new(Epsilon))),
        _ => {
            c.eq("result", Ab::take_str(&s), taken.clone());
            c.eq("boxed", <Box<Ab>>::take_str(&s).map(|b| *b), taken.clone());
            let mut p = IterWrapper::new(s.chars());
            c.eq("boxed take", p.take::<Box<Ab>>().map(|b| *b), taken);
            c.eq("rest", rest(&mut p), v[n..].iter().collect());
        }
    }
}

/// C27: what a parse error says.
pub fn messages(c: &mut Case) {
    let chars = ['a', '\'', '"', '\n', 'é', '\u{1F600}', '\u{7f}', '\\'];
    let (line, col) = (*c.rng.pick(&[0, 1, 7, 10, 123, usize::MAX]), *c.rng.pick(&[0, 1, 9, 100, usize::MAX]));
    let p = chewed::LineCol { line, col };
    let at = format!("{}:{}", line, col);
    let word = |c: &mut Case| -> String { (0..c.rng.below(4)).map(|_| *c.rng.pick(&chars)).collect() };
    let (e, text) = match c.rng.below(6) {
        0 => (chewed::ParseError::InputContinues(p), format!("{}: Expected end of input", at)),
        1 => (chewed::TakeError::EndOfStream(p).into(), format!("{}: Unexpected end of input", at)),
        2 => {
            let (got, want) = (word(c), word(c));
            let want: &'static str = Box::leak(want.into_boxed_str());
            let t = format!("{}: Unexpected string {:?}. Expected {:?}", at, got, want);
            (chewed::TakeError::BadString(p, got, want).into(), t)
        }
        _ => {
            let got = *c.rng.pick(&chars);
            let n = c.rng.below(6);
            let want: Vec<char> = (0..n).map(|_| *c.rng.pick(&chars)).collect();
            let want: &'static [char] = Box::leak(want.into_boxed_slice());
            let all = want.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", ");
            let rest = match n {
                0 => "Expected end of input.".to_string(),
                1 => format!("Expected character {}.", all),
                _ => format!("Expected one of {}", all),
            };
            (chewed::TakeError::BadBranch(p, got, want).into(), format!("{}: Unexpected character {:?}. {}", at, got, rest))
        }
    };
    c.input(format!("{:?}", e));
    c.eq("place", p.to_string(), at);
    c.eq("message", e.to_string(), text.clone());
    if let chewed::ParseError::TakeError(t) = &e {
        c.eq("message of the inner error", t.to_string(), text);
    }
}
