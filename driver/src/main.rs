//! Runs requests read from standard input against the real crate and writes
//! one trace event per request to standard output.  It decides nothing: the
//! trace is judged by TLC against /verif/spec/Trace.tla.

mod history;
mod out;
mod strings;
mod sys;

use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

use out::{emit, ints, limbs, outs, Out};
use sys::{Built, Ty, TYPES};

#[global_allocator]
static LIMITED: out::Limited = out::Limited;

fn different(all: impl Iterator<Item = Out>) -> Vec<Out> {
    let mut v: Vec<Out> = Vec::new();
    for o in all {
        if !v.contains(&o) {
            v.push(o);
        }
    }
    v
}

fn main() {
    out::start();
    let mut systems: Vec<Built> = Vec::new();
    let mut slots: strings::Slots = Vec::new();
    let mut declared: Vec<String> = Vec::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        out::REQUESTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        out::begin(&line);
        if line.starts_with("S ") {
            declared.push(line[2..].to_string());
        }
        if line.starts_with("Y ") {
            history::tell(&line, &declared, &systems);
            continue;
        }
        if line.starts_with("B ") {
            history::burst(&line, &declared);
            continue;
        }
        if catch_unwind(AssertUnwindSafe(|| serve(&line, &mut systems, &mut slots))).is_err() {
            // A panic is an answer like any other: one the specification does
            // not allow.
            emit(&format!("{{\"e\":\"panic\",\"cmd\":\"{line}\"}}"));
        }
    }
    out::finish()
}

fn serve(line: &str, systems: &mut Vec<Built>, slots: &mut strings::Slots) {
    let mut t = line.split_whitespace();
    let Some(cmd) = t.next() else { return };
    let number = |t: &mut sys::Tokens| -> u128 { t.next().unwrap().parse().unwrap() };
    match cmd {
        // Declare the next system.
        "S" => systems.push(sys::build(&mut t)),
        // Format a number from every type that can hold it.
        "F" | "U" | "T" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let n = number(&mut t);
            let sys = &systems[s - 1].sys;
            let types = || TYPES.into_iter().filter(move |ty| n <= ty.max());
            let o = different(types().map(|ty| sys.fallible(ty, n)));
            let e = cmd.to_lowercase();
            if cmd == "T" {
                let x = different(types().map(|ty| sys.infallible(ty, n)));
                emit(&format!("{{\"e\":\"{e}\",\"s\":{s},\"n\":{},\"o\":{},\"x\":{}}}", limbs(n), outs(&o), outs(&x)));
            } else {
                emit(&format!("{{\"e\":\"{e}\",\"s\":{s},\"n\":{},\"o\":{}}}", limbs(n), outs(&o)));
            }
        }
        // Format a number from one type, in every way there is.
        "I" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            let f = systems[s - 1].sys.full(ty, n);
            emit(&format!(
                "{{\"e\":\"i\",\"s\":{s},\"n\":{},\"a\":{},\"x\":{},\"y\":{}}}",
                limbs(n),
                f.a.json(),
                outs(&f.x),
                outs(&f.y)
            ));
        }
        "M" => {
            let kind = t.next().unwrap();
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            let (a, x) = sys::made(kind, ty, n);
            let n = if kind == "nozero" { 0 } else { n };
            emit(&format!(
                "{{\"e\":\"m\",\"n\":{},\"a\":{},\"x\":{},\"y\":{}}}",
                limbs(n),
                a.json(),
                x[0].json(),
                x[1].json()
            ));
        }
        "N" => {
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            let (zero, size) = sys::number(ty, n);
            emit(&format!("{{\"e\":\"n\",\"n\":{},\"zero\":{zero},\"usize\":{}}}", limbs(n), limbs(size as u128)));
        }
        "CAP" => emit(&format!("{{\"e\":\"cap\",\"n\":{}}}", nominals::NominalString::INLINE_CAPACITY)),
        "W" | "G" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            let sys = &systems[s - 1].sys;
            let w = if cmd == "W" { sys.wraps(ty, n) } else { sys.routes(ty, n) };
            let e = cmd.to_lowercase();
            emit(&format!(
                "{{\"e\":\"{e}\",\"s\":{s},\"n\":{},\"a\":{},\"b\":{},\"x\":{},\"y\":{}}}",
                limbs(n),
                w.a.json(),
                w.b.json(),
                outs(&different(w.x.into_iter())),
                outs(&different(w.y.into_iter()))
            ));
        }
        // Half of a comparison of builds; "long" texts are not spelled out.
        "H" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            if t.next().is_some() && cfg!(feature = "alloc") {
                emit(&format!(
                    "{{\"e\":\"h\",\"s\":{s},\"n\":{},\"a\":{},\"b\":{}}}",
                    limbs(n),
                    out::plain("long").json(),
                    out::plain("long").json()
                ));
                return;
            }
            let sys = &systems[s - 1].sys;
            emit(&format!(
                "{{\"e\":\"h\",\"s\":{s},\"n\":{},\"a\":{},\"b\":{}}}",
                limbs(n),
                sys.fallible(ty, n).json(),
                sys.infallible(ty, n).json()
            ));
        }
        "C" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let about = systems[s - 1].about.as_ref().unwrap();
            let a = about();
            let d: Vec<u32> = a.digits.iter().map(|c| *c as u32).collect();
            emit(&format!(
                "{{\"e\":\"c\",\"s\":{s},\"len\":{},\"empty\":{},\"zero\":{},\"digits\":{}}}",
                a.len.min(2_000_000_000),
                a.empty,
                a.zero,
                ints(&d)
            ));
        }
        // Is an additive set with these symbols accepted?
        "V" => {
            let v = sys::symbols(t.next().unwrap());
            let r = catch_unwind(AssertUnwindSafe(|| sys::additive(&v)));
            let values: Vec<String> = v.iter().map(|x| limbs(x.1)).collect();
            emit(&format!(
                "{{\"e\":\"v\",\"v\":[{}],\"r\":\"{}\"}}",
                values.join(","),
                if r.is_ok() { "ok" } else { "panic" }
            ));
        }
        // The numerals of different numbers.
        "D" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let ty = Ty::parse(t.next().unwrap());
            let sys = &systems[s - 1].sys;
            let mut texts = Vec::new();
            let mut ns = Vec::new();
            for part in t {
                let (a, b): (u128, u128) = match part.split_once('-') {
                    Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                    None => (part.parse().unwrap(), part.parse().unwrap()),
                };
                for n in a..=b {
                    out::begin(&format!("D {s} {n}"));
                    let o = sys.fallible(ty, n);
                    if o.r == "ok" || o.r == "badutf8" {
                        texts.push(ints(&o.t));
                        ns.push(limbs(n));
                    }
                }
            }
            emit(&format!("{{\"e\":\"d\",\"s\":{s},\"n\":[{}],\"t\":[{}]}}", ns.join(","), texts.join(",")));
        }
        // The numerals of a run of consecutive numbers.
        "O" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let ty = Ty::parse(t.next().unwrap());
            let (a, b) = (number(&mut t), number(&mut t));
            for n in a..=b {
                out::begin(&format!("O {s} {n}"));
                let o = systems[s - 1].sys.fallible(ty, n);
                emit(&format!("{{\"e\":\"o\",\"s\":{s},\"first\":{},\"n\":{},\"o\":{}}}", n == a, limbs(n), o.json()));
            }
        }
        // The same request over and over.
        "L" => {
            let s: usize = t.next().unwrap().parse().unwrap();
            let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
            let times = number(&mut t);
            let sys = &systems[s - 1].sys;
            let mut o: Vec<Out> = Vec::new();
            for i in 0..times {
                if i % 1000 == 0 {
                    out::begin(line);
                }
                let a = sys.fallible(ty, n);
                if o.len() < 5 && !o.contains(&a) {
                    o.push(a);
                }
            }
            emit(&format!("{{\"e\":\"l\",\"s\":{s},\"n\":{},\"o\":{}}}", limbs(n), outs(&o)));
        }
        // Nominal strings.
        "RESET" => {
            let k: usize = t.next().unwrap().parse().unwrap();
            *slots = (0..k).map(|_| None).collect();
            emit(&format!("{{\"e\":\"reset\",\"k\":{k}}}"));
        }
        // Z? is for a string that is there only if it could be formatted.
        "Z?" if slots[0].is_none() => {}
        "Z" | "Z?" => {
            let op = t.next().unwrap();
            let mut formatted = None;
            if op == "fmt" {
                let s: usize = t.next().unwrap().parse().unwrap();
                let (ty, n) = (Ty::parse(t.next().unwrap()), number(&mut t));
                formatted = systems[s - 1].sys.string(ty, n);
                if formatted.is_none() {
                    return;
                }
            }
            let e = strings::step(slots, op, &mut t, formatted);
            emit(&e);
        }
        "K" | "P" | "Q" => {
            let d: usize = t.next().unwrap().parse().unwrap();
            let a = slots[d - 1].as_ref();
            emit(&match cmd {
                "K" => {
                    let d: usize = t.next().unwrap().parse().unwrap();
                    strings::compare(a.unwrap(), slots[d - 1].as_ref().unwrap())
                }
                "P" => strings::display(a.unwrap(), &mut t),
                _ => strings::convert(a.unwrap()),
            });
        }
        _ => panic!("unknown command {line}"),
    }
}
