//! The same requests in different orders and from several threads at once:
//! who asked and was told what, in which order, is written to the trace.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

use crate::out::{begin, emit, outs, Out};
use crate::sys::{build, Built, Ty};
use crate::strings;

#[derive(Clone, Copy)]
enum Ask {
    /// Format a number fallibly or not.
    Number { s: usize, ty: Ty, n: u128, fallible: bool },
    /// Build a string.
    Text { seed: u64, len: usize },
}

fn parse(a: &str) -> Ask {
    let f: Vec<&str> = a.split(':').collect();
    if f[0] == "z" {
        Ask::Text { seed: f[1].parse().unwrap(), len: f[2].parse().unwrap() }
    } else {
        Ask::Number { s: f[1].parse().unwrap(), ty: Ty::parse(f[2]), n: f[3].parse().unwrap(), fallible: f[0] == "f" }
    }
}

fn answer(a: Ask, systems: &[Built]) -> Out {
    match a {
        Ask::Number { s, ty, n, fallible: true } => systems[s - 1].sys.fallible(ty, n),
        Ask::Number { s, ty, n, fallible: false } => systems[s - 1].sys.infallible(ty, n),
        Ask::Text { seed, len } => strings::spelled(seed, len),
    }
}

pub fn next(x: &mut u64) -> usize {
    *x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
    (*x >> 33) as usize
}

fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut x = seed;
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, next(&mut x) % (i + 1));
    }
    v
}

/// What thread `k` asked (None) or was told at a moment.
type Moment = (usize, usize, usize, Option<Out>);

fn go(k: usize, order: &[usize], asks: &[Ask], systems: &[Built], clock: &AtomicUsize, log: &mut Vec<Moment>) {
    for &q in order {
        log.push((clock.fetch_add(1, Ordering::SeqCst), k, q, None));
        let o = answer(asks[q], systems);
        log.push((clock.fetch_add(1, Ordering::SeqCst), k, q, Some(o)));
    }
    begin("Y");
}

/// Y threads seed ask ...
pub fn tell(line: &str, declared: &[String], systems: &[Built]) {
    let mut t = line.split_whitespace().skip(1);
    let threads: usize = t.next().unwrap().parse().unwrap();
    let seed: u64 = t.next().unwrap().parse().unwrap();
    let asks: Vec<Ask> = t.map(parse).collect();
    let clock = AtomicUsize::new(0);
    let mut log: Vec<Moment> = Vec::new();
    let listed: Vec<usize> = (0..asks.len()).collect();
    go(1, &listed, &asks, systems, &clock, &mut log);
    go(1, &shuffled(asks.len(), seed), &asks, systems, &clock, &mut log);
    let start = Barrier::new(threads);
    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|i| {
                let (asks, clock, start) = (&asks, &clock, &start);
                scope.spawn(move || {
                    // Systems of the thread's own: whatever the threads
                    // share, they share through the crate.
                    let own: Vec<Built> = declared.iter().map(|d| build(&mut d.split_whitespace())).collect();
                    let mut log = Vec::new();
                    let order = shuffled(asks.len(), seed + 1 + i as u64);
                    start.wait();
                    go(i + 2, &order, asks, &own, clock, &mut log);
                    log
                })
            })
            .collect();
        for h in handles {
            log.extend(h.join().unwrap());
        }
    });
    log.sort_by_key(|m| m.0);
    emit(&format!("{{\"e\":\"hist\",\"k\":{}}}", threads + 1));
    for (_, k, q, o) in log {
        match o {
            None => emit(&format!("{{\"e\":\"ask\",\"k\":{k},\"q\":{}}}", q + 1)),
            Some(o) => emit(&format!("{{\"e\":\"told\",\"k\":{k},\"q\":{},\"o\":{}}}", q + 1, o.json())),
        }
    }
}

/// B threads times ask ...: every thread repeats the requests; the different
/// answers to each.
pub fn burst(line: &str, declared: &[String]) {
    let mut t = line.split_whitespace().skip(1);
    let threads: usize = t.next().unwrap().parse().unwrap();
    let times: usize = t.next().unwrap().parse().unwrap();
    let asks: Vec<Ask> = t.map(parse).collect();
    let start = Barrier::new(threads);
    let mut all: Vec<Vec<Out>> = vec![Vec::new(); asks.len()];
    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|i| {
                let (asks, start) = (&asks, &start);
                scope.spawn(move || {
                    let own: Vec<Built> = declared.iter().map(|d| build(&mut d.split_whitespace())).collect();
                    let mut seen: Vec<Vec<Out>> = vec![Vec::new(); asks.len()];
                    start.wait();
                    for round in 0..times {
                        for j in 0..asks.len() {
                            let q = (j + i * (round + 1)) % asks.len();
                            let o = answer(asks[q], &own);
                            if seen[q].len() < 3 && !seen[q].contains(&o) {
                                seen[q].push(o);
                            }
                        }
                        if round % 100 == 0 {
                            begin("B");
                        }
                    }
                    seen
                })
            })
            .collect();
        for h in handles {
            for (q, seen) in h.join().unwrap().into_iter().enumerate() {
                for o in seen {
                    if !all[q].contains(&o) {
                        all[q].push(o);
                    }
                }
            }
        }
    });
    for (q, o) in all.iter().enumerate() {
        emit(&format!("{{\"e\":\"l\",\"q\":{},\"o\":{}}}", q + 1, outs(o)));
    }
}
