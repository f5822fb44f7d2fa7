//! Operations on nominal strings, replayed one at a time.

use std::cmp::Ordering;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use nominals::NominalString;

use crate::out::{ints, plain, text, Out};
use crate::sys::{chars, string, Tokens};

pub type Slots = Vec<Option<NominalString>>;

#[cfg(feature = "alloc")]
fn handed(s: &str) -> Out {
    let (valid, t) = text(s);
    Out { r: if valid { "text" } else { "badutf8" }, t, p: None }
}

fn done(r: Result<(), nominals::OutOfMemoryError>) -> Out {
    plain(if r.is_ok() { "ok" } else { "oom" })
}

/// Performs `op d ...` and describes the event.
pub fn step(slots: &mut Slots, op: &str, t: &mut Tokens, formatted: Option<NominalString>) -> String {
    let d: usize = t.next().unwrap().parse().unwrap();
    let mut arg = String::new();
    let mut from = 1;
    let reply = match op {
        "fmt" => {
            let s = formatted.unwrap();
            arg.push_str(&s);
            slots[d - 1] = Some(s);
            plain("ok")
        }
        "clone" => {
            from = t.next().unwrap().parse().unwrap();
            #[cfg(feature = "alloc")]
            {
                slots[d - 1] = slots[from - 1].clone();
            }
            plain("ok")
        }
        _ => {
            arg = t.next().map(string).unwrap_or_default();
            let a = arg.clone();
            catch_unwind(AssertUnwindSafe(|| run(slots, op, d, &a))).unwrap_or_else(|_| plain("panic"))
        }
    };
    let mut e = format!(
        "{{\"e\":\"z\",\"op\":\"{op}\",\"d\":{d},\"s\":{from},\"t\":{},\"reply\":{{\"r\":\"{}\",\"t\":{}}},\"see\":[",
        ints(&text(&arg).1),
        reply.r,
        ints(&reply.t)
    );
    for (i, s) in slots.iter().enumerate() {
        if i > 0 {
            e.push(',');
        }
        match s {
            Some(s) => write!(e, "{{\"live\":true,\"t\":{},\"heap\":{}}}", ints(&text(s).1), !s.is_inline()),
            None => write!(e, "{{\"live\":false,\"t\":[],\"heap\":false}}"),
        }
        .unwrap();
    }
    e.push_str("]}");
    e
}

fn run(slots: &mut Slots, op: &str, d: usize, a: &str) -> Out {
    let slot = &mut slots[d - 1];
    match op {
        "new" => *slot = Some(NominalString::new()),
        "rev" => *slot = Some(NominalString::new_reverse()),
        "def" => *slot = Some(NominalString::default()),
        "str" => *slot = Some(NominalString::from(a)),
        "char" => *slot = Some(NominalString::from(a.chars().next().unwrap())),
        "push" => return done(slot.as_mut().unwrap().try_push(a.chars().next().unwrap())),
        "pstr" => return done(slot.as_mut().unwrap().try_push_str(a)),
        "front" => return done(slot.as_mut().unwrap().try_push_front(a.chars().next().unwrap())),
        "upper" => slot.as_mut().unwrap().make_ascii_uppercase(),
        "lower" => slot.as_mut().unwrap().make_ascii_lowercase(),
        "drop" => *slot = None,
        #[cfg(feature = "alloc")]
        "strref" => *slot = Some(NominalString::from(&String::from(a))),
        #[cfg(feature = "alloc")]
        "own" => *slot = Some(NominalString::from(String::from(a))),
        #[cfg(feature = "alloc")]
        "take" => match slot.take().unwrap().try_into_string() {
            Ok(s) => return handed(&s),
            Err(s) => {
                *slot = Some(s);
                return plain("inline");
            }
        },
        #[cfg(feature = "alloc")]
        "into" => {
            let s = String::from(slot.take().unwrap());
            return handed(&s);
        }
        _ => panic!("unknown operation {op}"),
    }
    plain("ok")
}

fn sign(o: Ordering) -> i8 {
    o as i8
}

fn all<B: ?Sized>(a: &NominalString, b: &B) -> String
where
    NominalString: PartialEq<B> + PartialOrd<B>,
{
    format!(
        "{{\"eq\":{},\"ne\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{},\"cmp\":{}}}",
        a.eq(b),
        a.ne(b),
        a.lt(b),
        a.le(b),
        a.gt(b),
        a.ge(b),
        a.partial_cmp(b).map_or(9, sign)
    )
}

/// Compares strings `a` and `b` in every way there is.
pub fn compare(a: &NominalString, b: &NominalString) -> String {
    let bs: &str = b;
    #[allow(unused_mut)]
    let mut x = vec![all(a, b), all(a, bs)];
    #[cfg(feature = "alloc")]
    x.push(all(a, &String::from(bs)));
    let y = [a.eq(&bs), !a.ne(&bs)].map(|v| v.to_string());
    let z = [sign(a.cmp(b)), -sign(b.cmp(a)), sign(PartialOrd::<str>::partial_cmp(a, bs).unwrap())];
    format!(
        "{{\"e\":\"k\",\"a\":{},\"b\":{},\"x\":[{}],\"y\":[{}],\"z\":{:?}}}",
        ints(&text(a).1),
        ints(&text(b).1),
        x.join(","),
        y.join(","),
        z
    )
}

/// Displays `s` with format parameters.
pub fn display(s: &NominalString, t: &mut Tokens) -> String {
    let fill = chars(t.next().unwrap())[0];
    let align = t.next().unwrap();
    let w: i32 = t.next().unwrap().parse().unwrap();
    let p: i32 = t.next().unwrap().parse().unwrap();
    let flag = t.next().unwrap_or("");
    let (width, prec) = (w.max(0) as usize, p.max(0) as usize);
    macro_rules! with {
        ($f:literal, $flag:literal) => {
            match (w >= 0, p >= 0) {
                (false, false) => format!(concat!("{:", $f, $flag, "}"), s),
                (true, false) => format!(concat!("{:", $f, $flag, "width$}"), s, width = width),
                (false, true) => format!(concat!("{:", $f, $flag, ".prec$}"), s, prec = prec),
                (true, true) => format!(concat!("{:", $f, $flag, "width$.prec$}"), s, width = width, prec = prec),
            }
        };
    }
    macro_rules! show {
        ($f:literal) => {
            match flag {
                "" => with!($f, ""),
                "+" => with!($f, "+"),
                "#" => with!($f, "#"),
                "0" => with!($f, "0"),
                "+#0" => with!($f, "+#0"),
                other => panic!("unsupported flags {other}"),
            }
        };
    }
    let x = match (fill, align) {
        (' ', "-") => show!(""),
        (' ', "<") => show!("<"),
        (' ', "^") => show!("^"),
        (' ', ">") => show!(">"),
        ('*', "<") => show!("*<"),
        ('*', "^") => show!("*^"),
        ('*', ">") => show!("*>"),
        ('\u{5B57}', "<") => show!("\u{5B57}<"),
        ('\u{5B57}', "^") => show!("\u{5B57}^"),
        ('\u{5B57}', ">") => show!("\u{5B57}>"),
        other => panic!("unsupported fill and alignment {other:?}"),
    };
    format!(
        "{{\"e\":\"p\",\"a\":{},\"fill\":{},\"align\":\"{}\",\"width\":{w},\"prec\":{p},\"x\":{}}}",
        ints(&text(s).1),
        fill as u32,
        align,
        ints(&text(&x).1)
    )
}

/// The text of `s` after every conversion there is.
pub fn convert(s: &NominalString) -> String {
    #[allow(unused_mut)]
    let mut x = vec![
        text(&s.to_string()).1,
        text(&format!("{s}")).1,
        text(s).1,
        text(&NominalString::from(&s[..s.len().min(0)])).1,
    ];
    x.pop();
    #[cfg(feature = "alloc")]
    {
        x.push(text(&s.clone()).1);
        x.push(text(&s.clone().clone()).1);
        x.push(text(&String::from(s.clone())).1);
        x.push(
            text(&match s.clone().try_into_string() {
                Ok(s) => s,
                Err(s) => String::from(s),
            })
            .1,
        );
        x.push(text(&NominalString::from(String::from(s.clone()))).1);
        x.push(text(&NominalString::from(&String::from(s.clone()))).1);
        x.push(text(&NominalString::from(&**s)).1);
    }
    let x: Vec<String> = x.iter().map(|t| ints(t)).collect();
    format!("{{\"e\":\"q\",\"a\":{},\"x\":[{}]}}", ints(&text(s).1), x.join(","))
}

/// A string built by a pseudo-random series of operations, as a text.
pub fn spelled(seed: u64, len: usize) -> crate::out::Out {
    const CHARS: [char; 8] = ['a', 'Z', '9', '\u{e9}', '\u{7ff}', '\u{5b57}', '\u{ffff}', '\u{1f600}'];
    crate::out::infallible(|| {
        let mut x = seed;
        let mut s = if seed % 2 == 0 { NominalString::new() } else { NominalString::new_reverse() };
        for _ in 0..len {
            let r = crate::history::next(&mut x);
            let c = CHARS[r / 16 % 8];
            // One that does not fit is left out, every time.
            let _ = match r % 8 {
                0..=2 => s.try_push(c),
                3..=5 => s.try_push_front(c),
                6 => s.try_push_str(if r / 128 % 2 == 0 { "xy\u{e9}" } else { "" }),
                _ => {
                    s.make_ascii_uppercase();
                    Ok(())
                }
            };
        }
        s
    })
}
