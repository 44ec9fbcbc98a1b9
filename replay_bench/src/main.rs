//! Concrete oracles for the hand-written readers of chomp-bench. `replay_bench ID SEED MILLIS [CASE]`.
#[path = "../../replay/src/util.rs"]
mod util;
mod arith;

use chewed::{ParseError, TakeError};
use chewed::Parse;
use chewed::LineCol;
use chomp_bench::json::Value;
use util::*;

enum Want {
    Text(String),
    /// the error stands at this character (None: end of input)
    Bad(usize, Option<char>),
    /// anything but success, panics included
    Refused,
}

fn hex4(c: &mut Case, v: u32) -> String {
    format!("{:04x}", v).chars().map(|x| if c.rng.chance(1, 2) { x.to_ascii_uppercase() } else { x }).collect()
}

fn any_char(c: &mut Case) -> char {
    loop {
        let v = match c.rng.below(8) {
            0 => c.rng.below(0x110000) as u32,
            1 => *c.rng.pick(&[0x20, 0x21, 0x23, 0x5B, 0x5D, 0x7F, 0x80, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]),
            2 => c.rng.below(0x3000) as u32,
            _ => 0x20 + c.rng.below(0x5F) as u32,
        };
        if v == 0x22 || v == 0x5C || v < 0x20 || (0x85 == v || 0x2028 == v || 0x2029 == v) {
            continue;
        }
        if let Some(x) = char::from_u32(v) {
            return x;
        }
    }
}

fn json_string(c: &mut Case) {
    let mut text = String::from("\"");
    let mut val = String::new();
    let mut want = None;
    let n = c.rng.below(6);
    for _ in 0..n {
        match c.rng.below(6) {
            0 | 1 => {
                let x = any_char(c);
                text.push(x);
                val.push(x);
            }
            2 => {
                let (a, b) = *c.rng.pick(&[('"', '"'), ('\\', '\\'), ('/', '/'), ('b', '\x08'), ('f', '\x0C'), ('n', '\n'), ('r', '\r'), ('t', '\t')]);
                text.push('\\');
                text.push(a);
                val.push(b);
            }
            3 => {
                let v = loop {
                    let v = match c.rng.below(3) {
                        0 => *c.rng.pick(&[0, 1, 0xFFFF, 0xD7FF, 0xE000, 0x1000, 0x100, 0x10, 0xABCD, 0xEF98]),
                        1 => 1 << c.rng.below(16),
                        _ => c.rng.below(0x10000) as u32,
                    };
                    if !(0xD800..=0xDFFF).contains(&v) {
                        break v;
                    }
                };
                let h = hex4(c, v);
                text += &format!("\\u{}", h);
                val.push(char::from_u32(v).unwrap());
            }
            4 => {
                let h = match c.rng.below(3) {
                    0 => *c.rng.pick(&[0xD800, 0xDBFF, 0xD801]),
                    _ => 0xD800 + c.rng.below(0x400) as u32,
                };
                let l = match c.rng.below(3) {
                    0 => *c.rng.pick(&[0xDC00, 0xDFFF, 0xDC01]),
                    _ => 0xDC00 + c.rng.below(0x400) as u32,
                };
                let (a, b) = (hex4(c, h), hex4(c, l));
                text += &format!("\\u{}\\u{}", a, b);
                val.push(char::from_u32(0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)).unwrap());
            }
            _ => {
                if !c.rng.chance(1, 3) {
                    continue;
                }
                // something broken
                match c.rng.below(4) {
                    0 => {
                        // a bad digit
                        let k = c.rng.below(4);
                        let v = c.rng.below(0x10000) as u32;
                        let h = hex4(c, v);
                        let bad = loop {
                            let x = if c.rng.chance(1, 2) { *c.rng.pick(&['g', 'G', '/', ':', '@', '`', '"', '\\', '+', '-', ' ', 'x', 'u']) } else { any_char(c) };
                            if !x.is_ascii_hexdigit() {
                                break x;
                            }
                        };
                        text += "\\u";
                        text += &h[..k];
                        want = Some(Want::Bad(text.chars().count(), Some(bad)));
                        text.push(bad);
                        text += "0000\"";
                    }
                    1 => {
                        let k = c.rng.below(4);
                        let v = c.rng.below(0x10000) as u32;
                        let h = hex4(c, v);
                        text += "\\u";
                        text += &h[..k];
                        want = Some(Want::Bad(text.chars().count(), None));
                    }
                    2 => {
                        // an unpaired surrogate
                        let h = 0xD800 + c.rng.below(0x800) as u32;
                        let other = if c.rng.chance(1, 2) {
                            String::new()
                        } else {
                            let o = loop {
                                let o = if c.rng.chance(1, 2) { 0xD800 + c.rng.below(0x800) as u32 } else { c.rng.below(0x10000) as u32 };
                                let high = |x: u32| (0xD800..=0xDBFF).contains(&x);
                                let low = |x: u32| (0xDC00..=0xDFFF).contains(&x);
                                if !(high(h) && low(o)) && !(low(h) && high(o)) {
                                    break o;
                                }
                            };
                            format!("\\u{}", hex4(c, o))
                        };
                        let a = hex4(c, h);
                        text += &format!("\\u{}{}\"", a, other);
                        want = Some(Want::Refused);
                    }
                    _ => {
                        // a bad escape or a control character
                        if c.rng.chance(1, 2) {
                            text += "\\x\"";
                        } else {
                            text.push(char::from_u32(c.rng.below(0x20) as u32).unwrap());
                            text.push('"');
                        }
                        want = Some(Want::Refused);
                    }
                }
                break;
            }
        }
    }
    let want = want.unwrap_or_else(|| {
        text.push('"');
        Want::Text(val)
    });
    if n == 0 {
        c.trivial();
    }
    c.input(format!("{:?}", text));
    let t2 = text.clone();
    let got = std::panic::catch_unwind(move || Value::parse_str(&t2));
    match want {
        Want::Text(w) => match got {
            Ok(Ok(Value::String(s))) => c.eq("decoded string", s, w),
            Ok(x) => c.fail(format!("expected the string {:?}, got {:?}", w, x)),
            Err(_) => c.fail(format!("panicked, expected the string {:?}", w)),
        },
        Want::Bad(col, ch) => {
            let at = LineCol { line: 1, col };
            match (got, ch) {
                (Ok(Err(ParseError::TakeError(TakeError::BadBranch(p, x, _)))), Some(ch)) => {
                    c.eq("offending character", x, ch);
                    c.check(p.line == at.line && p.col == at.col, || format!("error at {:?}, expected {:?}", p, at));
                }
                (Ok(Err(ParseError::TakeError(TakeError::EndOfStream(p)))), None) => {
                    c.check(p.line == at.line && p.col == at.col, || format!("error at {:?}, expected {:?}", p, at));
                }
                (Ok(x), _) => c.fail(format!("expected an error at column {} ({:?}), got {:?}", col, ch, x)),
                (Err(_), _) => c.fail(format!("panicked, expected an error at column {} ({:?})", col, ch)),
            }
        }
        Want::Refused => {
            if let Ok(Ok(v)) = got {
                c.fail(format!("accepted as {:?}", v))
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let ms: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(5000);
    let case: Option<u64> = a.get(4).and_then(|x| x.parse().ok());
    let f: fn(&mut Case) = match id.as_str() {
        "C21" => json_string,
        "C25" => arith::arith,
        _ => {
            println!("NONE");
            return;
        }
    };
    run(&id, seed, ms, case, f);
}
