//! The arithmetic reader against an automaton with a stack and an operator-precedence evaluator.
use crate::util::*;
use chewed::{IterWrapper, ParseError, TakeError};

enum Tok {
    Num(i128),
    Op(char),
    Open,
    Close,
}

enum Want {
    Value(i64),
    /// the reader's error stands here
    Bad(usize, char),
    End(usize),
    /// a complete expression followed by something
    More(usize),
    /// some number or result does not fit, or a division by zero
    Skip,
}

fn fits(v: i128) -> Option<i128> {
    if v < i64::MIN as i128 || v > i64::MAX as i128 { None } else { Some(v) }
}

fn reduce(vals: &mut Vec<i128>, ops: &mut Vec<char>) -> Option<()> {
    let b = vals.pop()?;
    let a = vals.pop()?;
    vals.push(match ops.pop()? {
        '+' => fits(a + b)?,
        '-' => fits(a - b)?,
        '*' => fits(a * b)?,
        _ if b == 0 => return None,
        _ => fits(a / b)?,
    });
    Some(())
}

fn rank(c: char) -> u8 {
    match c {
        '(' => 0,
        '+' | '-' => 1,
        _ => 2,
    }
}

fn value(toks: &[Tok]) -> Option<i128> {
    let (mut vals, mut ops) = (vec![], vec![]);
    for t in toks {
        match t {
            Tok::Num(n) => vals.push(*n),
            Tok::Open => ops.push('('),
            Tok::Op(c) => {
                while ops.last().map_or(false, |o| rank(*o) >= rank(*c)) {
                    reduce(&mut vals, &mut ops)?;
                }
                ops.push(*c);
            }
            Tok::Close => {
                while *ops.last()? != '(' {
                    reduce(&mut vals, &mut ops)?;
                }
                ops.pop();
            }
        }
    }
    while ops.last().map_or(false, |o| *o != '(') && vals.len() > 1 {
        reduce(&mut vals, &mut ops)?;
    }
    vals.pop()
}

fn want(text: &[char]) -> Want {
    #[derive(PartialEq, Clone, Copy)]
    enum S {
        Operand,
        Minus,
        Digits,
        After,
    }
    let mut s = S::Operand;
    let mut depth = 0;
    let mut toks: Vec<Tok> = vec![];
    let mut neg = false;
    let mut overflow = false;
    let mut num: i128 = 0;
    let mut end = None;
    for (i, &c) in text.iter().enumerate() {
        if s == S::Digits && !c.is_ascii_digit() {
            toks.push(Tok::Num(if neg { -num } else { num }));
            neg = false;
            s = S::After;
        }
        match (s, c) {
            (S::Operand, ' ') | (S::Minus, ' ') | (S::After, ' ') => {}
            (S::Operand, '(') => {
                depth += 1;
                toks.push(Tok::Open);
            }
            (S::Operand, '-') => {
                neg = true;
                s = S::Minus;
            }
            (S::After, '+') | (S::After, '-') | (S::After, '*') | (S::After, '/') => {
                toks.push(Tok::Op(c));
                s = S::Operand;
            }
            (S::After, ')') if depth > 0 => {
                depth -= 1;
                toks.push(Tok::Close);
            }
            (S::Operand, '0'..='9') | (S::Minus, '0'..='9') => {
                num = c as i128 - '0' as i128;
                s = S::Digits;
            }
            (S::Digits, '0'..='9') => {
                num = num * 10 + (c as i128 - '0' as i128);
                if fits(num).is_none() {
                    overflow = true;
                    break;
                }
            }
            _ => {
                end = Some(if s == S::After && depth == 0 { Want::More(i) } else { Want::Bad(i, c) });
                break;
            }
        }
    }
    if s == S::Digits {
        toks.push(Tok::Num(if neg { -num } else { num }));
        s = S::After;
    }
    if overflow {
        return Want::Skip;
    }
    // what was complete when the reading stopped
    let operands = toks.iter().filter(|t| matches!(t, Tok::Num(_))).count();
    let v = value(if matches!(toks.last(), Some(Tok::Op(_))) { &toks[..toks.len() - 1] } else { &toks });
    if operands > 0 && v.is_none() && !(matches!(toks.last(), Some(Tok::Open)) ) {
        return Want::Skip;
    }
    if operands > 0 && matches!(toks.last(), Some(Tok::Open)) {
        // evaluate what stands before the open parentheses
        let mut k = toks.len();
        while k > 0 && matches!(toks[k - 1], Tok::Open | Tok::Op(_)) {
            k -= 1;
        }
        if value(&toks[..k]).is_none() {
            return Want::Skip;
        }
    }
    match end {
        Some(w) => w,
        None if s == S::After && depth == 0 => match v {
            Some(v) => Want::Value(v as i64),
            None => Want::Skip,
        },
        None => Want::End(text.len()),
    }
}

fn blanks(c: &mut Case, out: &mut String) {
    if c.rng.chance(1, 4) {
        for _ in 0..1 + c.rng.below(2) {
            out.push(' ');
        }
    }
}

fn num(c: &mut Case, out: &mut String) {
    let v = match c.rng.below(8) {
        0 => 0,
        1 => *c.rng.pick(&[i64::MAX, i64::MAX - 1, 1 << 32, 1000000007, 1 << 62]) as u64,
        2 => c.rng.below(100000) as u64,
        _ => c.rng.below(20) as u64,
    };
    if c.rng.chance(1, 10) {
        out.push('0');
    }
    *out += &v.to_string();
}

fn gen(c: &mut Case, depth: usize, out: &mut String) {
    match if depth == 0 { c.rng.below(2) } else { c.rng.below(6) } {
        0 => num(c, out),
        1 => {
            out.push('-');
            blanks(c, out);
            num(c, out);
        }
        2 => {
            out.push('(');
            blanks(c, out);
            gen(c, depth - 1, out);
            out.push(')');
        }
        _ => {
            gen(c, depth - 1, out);
            let op = *c.rng.pick(&['+', '-', '*', '/']);
            out.push(op);
            blanks(c, out);
            gen(c, depth - 1, out);
        }
    }
    blanks(c, out);
}

pub fn arith(c: &mut Case) {
    let mut text = String::new();
    blanks(c, &mut text);
    let d = c.rng.below(6);
    gen(c, d, &mut text);
    let mut text: Vec<char> = text.chars().collect();
    if c.rng.chance(1, 2) {
        for _ in 0..1 + c.rng.below(3) {
            let ch = *c.rng.pick(&['(', ')', '+', '-', '*', '/', ' ', '0', '7', '9', 'x', '\u{e9}', '\t', '(', ')']);
            let at = c.rng.below(text.len() + 1);
            match c.rng.below(4) {
                0 if at < text.len() => {
                    text.remove(at);
                }
                1 if at < text.len() => text[at] = ch,
                2 => text.truncate(at),
                _ => text.insert(at, ch),
            }
        }
    }
    let s: String = text.iter().collect();
    c.input(format!("{:?}", s));
    if text.len() < 2 {
        c.trivial();
    }
    let w = want(&text);
    let s2 = s.clone();
    let got = std::panic::catch_unwind(move || {
        let mut it = s2.chars();
        let mut p = IterWrapper::new(&mut it);
        chomp_bench::arith::parse_expr(&mut p)
    });
    let got = match (got, &w) {
        (_, Want::Skip) => return c.trivial(),
        (Ok(x), _) => x,
        (Err(_), _) => c.fail("panicked".into()),
    };
    match (w, got) {
        (Want::Value(v), Ok(x)) => c.eq("value", x, v),
        (Want::More(i), Err(ParseError::InputContinues(p))) => c.eq("position of what is left over", (p.line, p.col), (1, i)),
        (Want::End(i), Err(ParseError::TakeError(TakeError::EndOfStream(p)))) => c.eq("position of the end", (p.line, p.col), (1, i)),
        (Want::Bad(i, x), Err(ParseError::TakeError(TakeError::BadBranch(p, y, _)))) => c.eq("offending character", (p.line, p.col, y), (1, i, x)),
        (Want::Bad(i, x), Err(ParseError::TakeError(TakeError::BadString(p, y, _)))) => c.eq("offending character", (p.line, p.col, y), (1, i, x.to_string())),
        (Want::Value(v), x) => c.fail(format!("expected the value {}, got {:?}", v, x)),
        (Want::More(i), x) => c.fail(format!("expected 'input continues' at column {}, got {:?}", i, x)),
        (Want::End(i), x) => c.fail(format!("expected 'end of input' at column {}, got {:?}", i, x)),
        (Want::Bad(i, ch), x) => c.fail(format!("expected an error at column {} ({:?}), got {:?}", i, ch, x)),
        (Want::Skip, _) => {}
    }
}
