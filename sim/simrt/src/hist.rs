//! The recorded history of one simulated run.
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use tokio::sim;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ev {
    /// global event number (total order)
    pub n: u64,
    /// virtual time, in millionths of the unit of this run (ns if that is a millisecond)
    pub t: u64,
    /// what happened
    pub k: String,
    /// who (client task or actor label)
    pub w: i64,
    /// which operation or message
    pub id: i64,
    pub a: i64,
    pub b: i64,
    pub s: String,
}

impl Ev {
    pub fn ms(&self) -> u64 {
        self.t / 1_000_000
    }
}

static HIST: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
static PROBES: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());

pub fn log(k: &str, w: i64, id: i64, a: i64, b: i64, s: impl Into<String>) -> u64 {
    let s = s.into();
    sim::no_preempt(|| log_event(k, w, id, a, b, s))
}
#[inline(never)]
fn log_event(k: &str, w: i64, id: i64, a: i64, b: i64, s: String) -> u64 {
    let n = sim::next_event();
    HIST.lock().unwrap_or_else(|e| e.into_inner()).push(Ev {
        n,
        t: sim::now_ns() / crate::scale(),
        k: k.into(),
        w,
        id,
        a,
        b,
        s,
    });
    n
}

/// Counts a fault or rare condition that really happened.
pub fn probe(name: &str) {
    sim::no_preempt(|| count(name))
}
#[inline(never)]
fn count(name: &str) {
    let mut p = PROBES.lock().unwrap_or_else(|e| e.into_inner());
    match p.iter_mut().find(|x| x.0 == name) {
        Some(x) => x.1 += 1,
        None => p.push((name.into(), 1)),
    }
}

pub fn take() -> Vec<Ev> {
    std::mem::take(&mut *HIST.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn snapshot() -> Vec<Ev> {
    HIST.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
pub fn probes() -> Vec<(String, u64)> {
    PROBES.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn fnv(s: &str, mut h: u64) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash(evs: &[Ev]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for e in evs {
        h = fnv(&e.k, h);
        for v in [e.n as i64, e.t as i64, e.w, e.id, e.a, e.b] {
            h = (h ^ v as u64).wrapping_mul(0x100000001b3);
        }
        h = fnv(&e.s, h);
    }
    h
}

pub fn dump(evs: &[Ev]) -> String {
    let mut out = String::new();
    for e in evs {
        out.push_str(&format!(
            "{:>5} {:>9.3}ms {:<14} who={:<4} id={:<6} a={:<5} b={:<5} {}\n",
            e.n,
            e.t as f64 / 1e6,
            e.k,
            e.w,
            e.id,
            e.a,
            e.b,
            e.s
        ));
    }
    out
}
