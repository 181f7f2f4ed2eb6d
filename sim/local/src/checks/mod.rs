//! One profile (workload generator) and one oracle per property.
use crate::gen;
use crate::view::*;
use crate::world::*;
use simrt::runner::{viol, Check, MainFut, SimParams, Violation};
use simrt::{Ev, Rng};

mod core;
mod life;
mod links;
mod misc;
mod next;

pub struct P {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Scenario,
    pub judge: fn(&Scenario, &View, &[Ev]) -> Vec<Violation>,
    pub nontrivial: fn(&Scenario, &View) -> bool,
    pub rule: &'static str,
    pub runs: u64,
    pub stall: bool,
    pub preempt: bool,
}

/// Panics which come neither from a handler or hook of the scenario nor from the harness, beyond `known` ones.
pub fn inner_panics(h: &[Ev], known: usize) -> Vec<Violation> {
    h.iter().filter(|e| e.k == "panic" && !e.s.starts_with("local/") && !e.s.contains("boom")).skip(known).take(1).map(|e| viol("panic", e.s.clone())).collect()
}

impl Check<Scenario> for P {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        (self.gen)(r)
    }
    fn params(&self, sc: &Scenario, seed: u64, r: &mut Rng) -> SimParams {
        let mut p = SimParams::swarm(seed, r);
        // in a world of another property, what that one is decided under
        if self.id == "C33" && sc.base > 0 {
            return next::base(sc.base).params(&Scenario { base: 0, ..sc.clone() }, seed, r);
        }
        if r.pct(25) {
            p.scale = *r.pick(&[10, 100, 1000, 1000, 10_000]);
        }
        if self.stall && r.pct(25) {
            p.stall_pm = *r.pick(&[2, 10, 40]);
            p.stall_max_ms = *r.pick(&[3, 30]);
        }
        // a threaded actor may be preempted between the decision to run a handler and its first line
        let exact = self.id == "C10" && sc.actors.iter().any(|a| a.how == SpawnHow::Thread);
        if self.preempt && !exact {
            p.preempt_pm = if self.id == "C17" { *r.pick(&[20, 50, 100, 200]) } else { *r.pick(&[0, 5, 30, 100]) };
        }
        p
    }
    fn run(&self, sc: Scenario) -> MainFut {
        Box::pin(run(sc))
    }
    fn judge(&self, sc: &Scenario, h: &[Ev]) -> Vec<Violation> {
        let v = View::new(h);
        let mut out = (self.judge)(sc, &v, h);
        // (a panic of on_start or on_stop has no result of the asked type: those calls panic)
        out.extend(inner_panics(h, v.ops.iter().filter(|o| o.how.starts_with("waitst") && o.code() == Some(PANICKED)).count()));
        for x in &mut out {
            x.class = format!("{}/{}", self.id, x.class);
        }
        out
    }
    fn nontrivial(&self, sc: &Scenario, h: &[Ev]) -> bool {
        (self.nontrivial)(sc, &View::new(h))
    }
    fn rule(&self) -> String {
        self.rule.into()
    }
    fn atoms(&self, sc: &Scenario) -> usize {
        gen::atoms(sc)
    }
    fn keep(&self, sc: &Scenario, k: &[bool]) -> Scenario {
        gen::keep(sc, k)
    }
    fn simplify(&self, sc: &Scenario) -> Vec<Scenario> {
        gen::simplify(sc)
    }
    fn runs(&self) -> u64 {
        self.runs
    }
    fn real(&self) -> Vec<&'static str> {
        vec![
            "kameo (all of src/ without the remote feature): actor lifecycle loop, mailboxes, requests, replies, links, registry, streams",
            "tokio mpsc, oneshot, Mutex, Semaphore, timers, JoinHandle",
            "futures Abortable, FuturesUnordered; OS threads for blocking clients and threaded actors (one runs at a time)",
        ]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec![
            "tokio's task scheduler: one current-thread runtime whose next task is chosen by the simulator",
            "clock: tokio paused time, advanced only when nothing is runnable",
            "OS scheduler: simulated threads run one at a time, switched at blocking and preemption points",
            "entropy, clock_gettime: seeded",
        ]
    }
}

/// Operations that never returned although the run was watched to its end.
pub fn hangs<'a>(v: &'a View, sc: &'a Scenario) -> Vec<&'a OpRec> {
    if v.end == 0 {
        return vec![];
    }
    v.ops
        .iter()
        .filter(|o| o.ret.is_none())
        .filter(|o| o.enq.is_none() || o.cinv.is_some())
        .filter(|o| {
            // the caller itself was interrupted
            if o.who >= 1000 {
                let a = (o.who - 1000) as usize;
                if v.killed(a) || v.of(a).iter().any(|s| s.cut) {
                    return false;
                }
            }
            true
        })
        .filter(|o| o.actor < 0 || (o.actor as usize) < sc.actors.len() && v.spawn.contains_key(&(o.actor as usize)))
        .collect()
}

pub fn describe(o: &OpRec) -> String {
    format!(
        "op {} by {}: {} {} on actor {} (message {}) invoked at event {} ({} ms){}",
        o.uid,
        o.who,
        o.how,
        o.tags,
        o.actor,
        o.mid,
        o.n,
        o.t / 1_000_000,
        match &o.ret {
            Some(r) => format!(", returned {} value {} at event {} ({} ms) {}", code_name(r.code), r.val, r.n, r.t / 1_000_000, r.s),
            None => ", never returned".into(),
        }
    )
}
pub fn code_name(c: i64) -> &'static str {
    match c {
        OK => "ok",
        NOT_RUNNING => "actor-not-running",
        STOPPED => "actor-stopped",
        FULL => "mailbox-full",
        HANDLER => "error",
        TIMEOUT_MSG => "timeout(message)",
        TIMEOUT_NONE => "timeout(no message)",
        PANICKED => "panicked",
        NONE => "none",
        CANCELLED => "cancelled",
        _ => "?",
    }
}

/// The actor may legitimately leave accepted messages unhandled.
pub fn may_drop_messages(v: &View, a: usize) -> bool {
    v.killed(a)
        || !v.spawn.contains_key(&a)
        || v.started(a).map(|s| !s.done() || s.code != 0).unwrap_or(true)
        || v.of(a).iter().any(|s| (s.k == "pan" && !(s.code == 0 && s.val == 1)) || (s.k == "lnk" && !(s.code == 0 && s.val == 0)))
}

pub fn msg_kind_is_stream(s: &Span) -> bool {
    !s.s.is_empty()
}

pub fn all() -> Vec<&'static dyn Check<Scenario>> {
    let mut v: Vec<&'static dyn Check<Scenario>> = vec![];
    for p in core::LIST.iter().chain(life::LIST).chain(links::LIST).chain(misc::LIST).chain(next::LIST) {
        v.push(p);
    }
    v
}
