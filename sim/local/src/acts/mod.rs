//! C20–C23: the helper actors of `kameo_actors`.
pub mod world;
use crate::checks::describe;
use crate::view::*;
use crate::world::{End, FULL, HANDLER, NOT_RUNNING, OK, PANICKED, STOPPED};
use glob::{MatchOptions, Pattern};
use simrt::runner::{viol, Check, MainFut, SimParams, Violation};
use simrt::{Ev, Rng};
use std::collections::BTreeMap;
use world::*;

pub struct P {
    id: &'static str,
    gen: fn(&mut Rng) -> Scenario,
    judge: fn(&Scenario, &View, &[Ev]) -> Vec<Violation>,
    nontrivial: fn(&Scenario, &View) -> bool,
    rule: &'static str,
    runs: u64,
}
pub static LIST: &[P] = &[
    P {
        id: "C20",
        gen: gen20,
        judge: judge20,
        nontrivial: |_, v| v.ops.iter().filter(|o| o.has("dispatch") || o.has("broadcast")).count() > 1,
        rule: "at least two jobs were sent to the pool; distinct by history and interleaving",
        runs: 50_000,
    },
    P {
        id: "C21",
        gen: |r| gen_ps(r, 0),
        judge: judge_ps,
        nontrivial: |_, v| delivered_any(v),
        rule: "at least one publication was delivered; distinct by history and interleaving",
        runs: 50_000,
    },
    P {
        id: "C22",
        gen: |r| gen_ps(r, 1),
        judge: judge_ps,
        nontrivial: |_, v| delivered_any(v),
        rule: "at least one publication was delivered; distinct by history and interleaving",
        runs: 50_000,
    },
    P {
        id: "C23",
        gen: |r| gen_ps(r, 2),
        judge: judge_ps,
        nontrivial: |_, v| delivered_any(v),
        rule: "at least one publication was delivered; distinct by history and interleaving",
        runs: 50_000,
    },
];
fn delivered_any(v: &View) -> bool {
    v.spans.iter().any(|s| s.k == "h" && s.s.starts_with('n') && s.id < 900_000)
}

impl Check<Scenario> for P {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        (self.gen)(r)
    }
    fn params(&self, _sc: &Scenario, seed: u64, r: &mut Rng) -> SimParams {
        // no stalls and no threads: the oracles rely on the virtual clock standing still while anything can run
        let mut p = SimParams::swarm(seed, r);
        if r.pct(25) {
            p.scale = *r.pick(&[10, 100, 1000, 1000, 10_000]);
        }
        p
    }
    fn run(&self, sc: Scenario) -> MainFut {
        Box::pin(run(sc))
    }
    fn judge(&self, sc: &Scenario, h: &[Ev]) -> Vec<Violation> {
        let v = View::new(h);
        let mut out = (self.judge)(sc, &v, h);
        out.extend(crate::checks::inner_panics(h, 0));
        for x in &mut out {
            x.class = format!("{}/{}", self.id, x.class);
        }
        out
    }
    fn nontrivial(&self, sc: &Scenario, h: &[Ev]) -> bool {
        (self.nontrivial)(sc, &View::new(h))
    }
    fn rule(&self) -> String {
        self.rule.into()
    }
    fn atoms(&self, sc: &Scenario) -> usize {
        sc.tasks.iter().map(|t| t.len()).sum::<usize>() + sc.bad.len()
    }
    fn keep(&self, sc: &Scenario, k: &[bool]) -> Scenario {
        let mut s = sc.clone();
        let mut i = 0;
        let mut on = || {
            i += 1;
            k.get(i - 1).copied().unwrap_or(true)
        };
        for t in &mut s.tasks {
            t.retain(|_| on());
        }
        s.bad.retain(|_| on());
        s
    }
    fn simplify(&self, sc: &Scenario) -> Vec<Scenario> {
        let mut out = vec![];
        for i in 0..sc.tasks.len() {
            if sc.tasks[i].is_empty() && sc.tasks.len() > 1 {
                let mut s = sc.clone();
                s.tasks.remove(i);
                out.push(s);
            }
        }
        if sc.hub_cap.is_some() {
            out.push(Scenario { hub_cap: None, ..sc.clone() });
        }
        if let HubKind::Pool { size, asyncf, wcap, prefill } = &sc.hub {
            let mut alt = |size: usize, asyncf: Option<u64>, wcap: Option<usize>, prefill: u64| {
                out.push(Scenario { hub: HubKind::Pool { size, asyncf, wcap, prefill }, ..sc.clone() });
            };
            if *size > 1 {
                alt(size - 1, *asyncf, *wcap, *prefill);
            }
            if asyncf.is_some() {
                alt(*size, None, *wcap, *prefill);
            }
            if wcap.is_some() {
                alt(*size, *asyncf, None, *prefill);
            }
            if *prefill > 0 {
                alt(*size, *asyncf, *wcap, 0);
            }
        }
        for i in 0..sc.subs.len() {
            let d = &sc.subs[i];
            let mut alt = |x: SubSpec| {
                let mut s = sc.clone();
                s.subs[i] = x;
                out.push(s);
            };
            if d.dies.is_some() {
                alt(SubSpec { dies: None, ..d.clone() });
            }
            if !d.slow.is_empty() {
                alt(SubSpec { slow: vec![], ..d.clone() });
            }
            if d.start > 0 {
                alt(SubSpec { start: 0, ..d.clone() });
            }
            if d.cap.is_some() {
                alt(SubSpec { cap: None, ..d.clone() });
            }
        }
        for (i, t) in sc.tasks.iter().enumerate() {
            for (j, o) in t.iter().enumerate() {
                if let Op::Dispatch { how, j: job } | Op::Broadcast { how, j: job } = o {
                    if !job.work.is_empty() {
                        let mut s = sc.clone();
                        let nj = Job { work: vec![], ..job.clone() };
                        s.tasks[i][j] = match o {
                            Op::Dispatch { .. } => Op::Dispatch { how: *how, j: nj },
                            _ => Op::Broadcast { how: *how, j: nj },
                        };
                        out.push(s);
                    }
                }
            }
        }
        out
    }
    fn runs(&self) -> u64 {
        self.runs
    }
    fn real(&self) -> Vec<&'static str> {
        vec![
            "kameo_actors: ActorPool, PubSub, Broker, MessageBus",
            "kameo (all of src/ without the remote feature)",
            "tokio mpsc, oneshot, Mutex, Semaphore, timers, JoinHandle; futures; glob",
        ]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec![
            "tokio's task scheduler: one current-thread runtime whose next task is chosen by the simulator",
            "clock: tokio paused time, advanced only when nothing is runnable",
            "entropy, clock_gettime: seeded",
        ]
    }
}

pub fn all() -> Vec<&'static dyn Check<Scenario>> {
    LIST.iter().map(|p| p as &'static dyn Check<Scenario>).collect()
}

fn pause(r: &mut Rng) -> Vec<Op> {
    match r.below(6) {
        0..=2 => vec![],
        3 => vec![Op::Yield(r.range(1, 4) as u32)],
        4 => vec![Op::Sleep(r.range(1, 4))],
        _ => vec![Op::Sleep(r.range(1, 30))],
    }
}
fn how(r: &mut Rng) -> How {
    *r.pick(&[How::Tell, How::Tell, How::Ask, How::Ask, How::Enq, How::Enq, How::Try])
}

// ---- C20: pool -----------------------------------------------------------------------------------

fn gen20(r: &mut Rng) -> Scenario {
    let size = *r.pick(&[1, 1, 2, 2, 3, 4, 5]) as usize;
    let wcap = *r.pick(&[None, None, Some(64), Some(1), Some(2), Some(3)]);
    let asyncf = if r.pct(30) { Some(*r.pick(&[0, 1001, 3])) } else { None };
    let faults = r.pct(65);
    let errs = r.pct(40);
    let prefill = if r.pct(8) { r.range(1, 2) } else { 0 };
    let hub_cap = *r.pick(&[None, None, Some(1), Some(2), Some(64)]);
    let mut bad = vec![];
    if faults && r.pct(25) {
        for _ in 0..r.range(1, 3) {
            bad.push((r.below(size as u64 + 3), r.below(2) as u8));
        }
    }
    let mut id = 0;
    let mut tasks = vec![];
    let sparse = r.pct(40);
    for _ in 0..r.range(1, 4) {
        let mut ops = pause(r);
        for _ in 0..r.range(1, 8) {
            if sparse {
                ops.push(Op::Sleep(r.range(1, 9)));
            } else {
                ops.extend(pause(r));
            }
            let end = match r.below(100) {
                0..=9 if errs => End::Err,
                0..=9 if faults => End::Panic,
                _ => End::Ok,
            };
            let work = match r.below(5) {
                0 => vec![],
                1 => vec![1000 + r.range(1, 3)],
                2 => vec![r.range(1, 3)],
                3 => vec![r.range(1, 40)],
                _ => vec![1001, r.range(1, 10)],
            };
            id += 1;
            let j = Job { id, work, end };
            ops.push(match r.below(100) {
                0..=69 => Op::Dispatch { how: how(r), j },
                70..=81 => Op::Broadcast { how: how(r), j },
                82..=93 if faults => Op::EndWorker { k: r.below(8) as usize, kill: r.pct(60) },
                94..=95 if faults && r.pct(20) => Op::EndHub { kill: r.pct(50) },
                _ => Op::Collect,
            });
        }
        tasks.push(ops);
    }
    Scenario { hub: HubKind::Pool { size, asyncf, wcap, prefill }, hub_cap, subs: vec![], bad, tasks, horizon: 3_000 }
}

fn judge20(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let HubKind::Pool { size, wcap, .. } = sc.hub else { return out };
    if let Some(e) = h.iter().find(|e| e.k == "hubpanic") {
        return vec![viol("pool-creation-panicked", format!("creating the pool panicked: {}", e.s))];
    }
    let hubend = v.ops.iter().find(|o| o.how == "hubkill" || o.how == "hubstop").map(|o| o.n);
    let jobs: Vec<&OpRec> = v.ops.iter().filter(|o| o.has("dispatch") || o.has("broadcast")).collect();
    // a worker's life may have been disturbed
    let mut calm = sc.bad.is_empty() && hubend.is_none() && !v.ops.iter().any(|o| o.how == "kill" || o.how == "stop");
    for s in &v.spans {
        if s.k == "pan" || s.code == 2 {
            calm = false;
        }
        if s.code == 1 {
            let o = jobs.iter().find(|o| o.mid == s.id);
            if !o.is_some_and(|o| o.is_ask() && o.has("dispatch")) {
                calm = false;
            }
        }
    }
    for o in &jobs {
        let hs = v.hs(o.mid);
        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
        for s in &hs {
            *per.entry(s.actor).or_default() += 1;
        }
        let bc = o.has("broadcast");
        if bc {
            if per.values().any(|c| *c > 1) || hs.len() > size {
                out.push(viol("broadcast-repeated", format!("{} was handled {} times by {} of {size} workers", describe(o), hs.len(), per.len())));
            }
        } else if hs.len() > 1 {
            out.push(viol("job-repeated", format!("{} was handled {} times", describe(o), hs.len())));
        }
        let fail = |out: &mut Vec<Violation>, c: &str| out.push(viol(c, describe(o)));
        match o.code() {
            None => {
                if v.end > 0 && (o.enq.is_none() || o.cinv.is_some()) {
                    fail(&mut out, "job-hangs");
                }
                continue;
            }
            Some(PANICKED) => fail(&mut out, "dispatcher-panicked"),
            Some(OK) if o.is_ask() && !bc => {
                if o.ret.as_ref().unwrap().val != o.mid * 7 + 3 {
                    fail(&mut out, "wrong-reply");
                } else if !hs.iter().any(|s| s.done() && s.code == 0 && s.n1.unwrap() < o.ret.as_ref().unwrap().n) {
                    fail(&mut out, "reply-without-handling");
                }
            }
            Some(OK) if o.is_ask() && bc => {
                let val = o.ret.as_ref().unwrap().val;
                let (n, ok) = (val / 1000, val % 1000);
                if n != size as i64 {
                    fail(&mut out, "broadcast-results");
                }
                if hs.len() as i64 > ok {
                    fail(&mut out, "broadcast-results");
                }
                if calm && ok != size as i64 {
                    fail(&mut out, "broadcast-failed");
                }
            }
            Some(HANDLER) => {
                if !hs.iter().any(|s| s.done() && s.code == 1) || o.ret.as_ref().unwrap().val != o.mid {
                    fail(&mut out, "wrong-error");
                }
            }
            Some(NOT_RUNNING) => {
                if !hs.is_empty() || (calm && hubend.is_none()) {
                    fail(&mut out, "refused-job");
                }
                continue;
            }
            Some(FULL) => {
                if o.how != "TryTell" || sc.hub_cap.is_none() || !hs.is_empty() {
                    fail(&mut out, "refused-job");
                }
                continue;
            }
            Some(STOPPED) => {
                if calm {
                    fail(&mut out, "lost-job");
                }
            }
            Some(OK) => {}
            _ => fail(&mut out, "unexpected-outcome"),
        }
        if calm && o.accepted() {
            let want = if bc { size } else { 1 };
            if hs.iter().filter(|s| s.done()).count() != want {
                out.push(viol("lost-job", format!("{} was handled {} times instead of {want}", describe(o), hs.len())));
            }
        }
    }
    // the pool and its size survive
    if let Some(e) = h.iter().find(|e| e.k == "hub") {
        if e.a == 0 && hubend.is_none() {
            out.push(viol("pool-died", format!("the pool stopped although nobody stopped it (noticed at {} ms)", e.ms())));
        }
        if e.a == 1 {
            let probe: Vec<_> = v.ops.iter().filter(|o| o.who == -2).collect();
            for o in &probe {
                let hs = v.hs(o.mid);
                let bc = o.has("broadcast");
                let good = if bc { o.ret.as_ref().is_some_and(|r| r.code == OK && r.val == (size * 1001) as i64) && hs.len() == size } else { o.code() == Some(OK) };
                if !good && hubend.is_none() {
                    out.push(viol(
                        "pool-not-restored",
                        format!("long after the last fault, a broadcast to the pool of {size} was handled by {} workers: {}", hs.len(), describe(o)),
                    ));
                }
            }
            let live = h.iter().filter(|e| e.k == "final" && e.a == 1).count();
            if live != size && hubend.is_none() {
                out.push(viol("pool-size", format!("long after the last fault, {live} workers live in a pool of {size}")));
            }
        }
    }
    // least loaded first, judged where the moment of dispatch is certain
    if calm && wcap.is_none_or(|c| c >= 64) {
        for o in jobs.iter().filter(|o| o.has("dispatch") && o.accepted() && o.who >= 0) {
            let hs = v.hs(o.mid);
            let [s] = hs.as_slice() else { continue };
            let t = o.t;
            if jobs.iter().any(|x| x.uid != o.uid && x.t == t) {
                continue;
            }
            if v.spans.iter().any(|x| x.k == "h" && x.id != o.mid && (x.t0 == t || x.t1 == Some(t))) {
                continue;
            }
            let mut load = vec![0; size];
            let mut certain = true;
            for x in &jobs {
                if x.t < t && !x.rejected() {
                    let xs = v.hs(x.mid);
                    if xs.len() != if x.has("broadcast") { size } else { 1 } {
                        certain = false;
                    }
                    for y in xs {
                        if y.t1.is_none_or(|n| n > t) && y.actor < size {
                            load[y.actor] += 1;
                        }
                    }
                }
            }
            if certain && s.actor < size && load[s.actor] > *load.iter().min().unwrap() {
                out.push(viol("not-least-loaded", format!("{} went to worker {} although the workers had {load:?} unfinished jobs", describe(o), s.actor)));
            }
        }
    }
    out
}

// ---- C21–C23: pubsub, broker, bus ------------------------------------------------------------------

fn gen_ps(r: &mut Rng, which: u8) -> Scenario {
    let strat = match r.below(5) {
        0 => Strat::Guaranteed,
        1 => Strat::BestEffort,
        2 => Strat::Timed(r.range(1, 10)),
        3 => Strat::Spawned,
        _ => Strat::SpawnedTimed(r.range(1, 10)),
    };
    let hub = match which {
        0 => HubKind::PubSub,
        1 => HubKind::Broker(strat),
        _ => HubKind::Bus(strat),
    };
    let blocking = which == 0 || strat == Strat::Guaranteed;
    let n = r.range(1, 4) as usize;
    let deaths = r.pct(50);
    let mut subs = vec![];
    for _ in 0..n {
        let mut s = SubSpec { cap: *r.pick(&[None, None, Some(1), Some(1), Some(2), Some(3), Some(64)]), ..Default::default() };
        for _ in 0..r.below(4) {
            s.slow.push(match r.below(5) {
                0 => 0,
                1 => 1000 + r.range(1, 3),
                2 => r.range(1, 3),
                _ => r.range(1, 25),
            });
        }
        // stuck for good
        if r.pct(8) && (!blocking || s.cap.is_none()) {
            s.slow.push(10_000_000);
        }
        if deaths && r.pct(20) {
            s.dies = Some((r.below(3), r.below(2) as u8));
        }
        if r.pct(15) {
            s.start = r.range(1, 10);
        }
        subs.push(s);
    }
    let topics = match which {
        0 => 3,
        1 => TOPICS.len() as u64,
        _ => 3,
    };
    let mut id = 0;
    let mut tasks = vec![];
    for t in 0..r.range(1, 4) {
        let mut ops = pause(r);
        for k in 0..r.range(2, 9) {
            ops.extend(pause(r));
            let s = r.below(n as u64) as usize;
            let pat = match which {
                0 => 0,
                1 => r.below(PATTERNS.len() as u64) as usize,
                _ => r.below(3) as usize,
            };
            let roll = if t == 0 && k < 2 { 0 } else { r.below(100) };
            ops.push(match roll {
                0..=29 => Op::Sub { how: how(r), s, pat, f: if which == 0 && r.pct(50) { r.below(FILTERS as u64) as usize } else { 0 } },
                30..=39 if which != 0 => Op::Unsub { how: how(r), s, pat: if which == 1 && r.pct(40) { None } else { Some(pat) } },
                40..=45 if deaths => Op::EndSub { s, kill: r.pct(50) },
                46..=53 => {
                    id += 1;
                    Op::Direct { s, id }
                }
                54..=57 => Op::Collect,
                _ => {
                    id += 1;
                    Op::Publish { how: how(r), id, topic: r.below(topics) as u8 }
                }
            });
        }
        tasks.push(ops);
    }
    Scenario { hub, hub_cap: *r.pick(&[None, None, Some(1), Some(2), Some(64)]), subs, bad: vec![], tasks, horizon: 3_000 }
}

/// `a` was certainly processed by the hub before `b`.
fn sure_before(a: &OpRec, b: &OpRec) -> bool {
    a.acc_n().is_some_and(|n| n < b.n)
}

fn judge_ps(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let strat = match &sc.hub {
        HubKind::PubSub => Strat::Guaranteed,
        HubKind::Broker(s) | HubKind::Bus(s) => *s,
        _ => return out,
    };
    let pubsub = sc.hub == HubKind::PubSub;
    let broker = matches!(sc.hub, HubKind::Broker(_));
    for o in &v.ops {
        if o.code() == Some(PANICKED) {
            out.push(viol("caller-panicked", describe(o)));
        }
        if o.is_send() && !o.has("direct") {
            match o.code() {
                Some(NOT_RUNNING | STOPPED | HANDLER) => out.push(viol("hub-failed", describe(o))),
                None if v.end > 0 && (o.enq.is_none() || o.cinv.is_some()) => out.push(viol("hub-hangs", describe(o))),
                _ => {}
            }
        }
    }
    if let Some(e) = h.iter().find(|e| e.k == "hub") {
        if e.a == 0 {
            out.push(viol("hub-died", "the hub stopped although nobody stopped it"));
            return out;
        }
    }
    if !out.is_empty() || v.end == 0 {
        return out;
    }
    let live = |o: &&OpRec| !o.rejected();
    let subs: Vec<&OpRec> = v.ops.iter().filter(|o| o.has("sub")).filter(live).collect();
    let unsubs: Vec<&OpRec> = v.ops.iter().filter(|o| o.has("unsub")).filter(live).collect();
    let pubs: Vec<&OpRec> = v.ops.iter().filter(|o| o.has("publish")).collect();
    let opts = MatchOptions { case_sensitive: true, require_literal_separator: true, require_literal_leading_dot: false };
    let matches = |s: &OpRec, p: &OpRec| match sc.hub {
        HubKind::PubSub => accepts(s.tags.split("f=").nth(1).and_then(|x| x.parse().ok()).unwrap_or(0), p.mid as u64, p.actor as u8),
        HubKind::Broker(_) => Pattern::new(PATTERNS[s.mid as usize]).unwrap().matches_with(TOPICS[p.actor as usize], opts),
        _ => s.mid == p.actor,
    };
    // how often the publication may (at least, at most) go to the subscriber
    let bounds = |p: &OpRec, a: usize| -> (usize, usize) {
        if p.rejected() {
            return (0, 0);
        }
        let mine: Vec<_> = subs.iter().filter(|s| s.actor == a as i64).collect();
        let mut hi = 0;
        let mut lo_pats = std::collections::BTreeSet::new();
        for s in &mine {
            if !matches(s, p) || sure_before(p, s) {
                continue;
            }
            let removers: Vec<&&OpRec> = if pubsub {
                subs.iter().filter(|x| x.actor == s.actor && x.uid != s.uid).collect()
            } else {
                unsubs.iter().filter(|u| u.actor == s.actor && (u.mid == s.mid || (broker && u.mid == -1))).collect()
            };
            if !removers.iter().any(|u| sure_before(s, u) && sure_before(u, p)) {
                hi += 1;
            }
            if sure_before(s, p) {
                let kept = |u: &OpRec| sure_before(u, s) || sure_before(p, u) || (pubsub && matches(u, p));
                if removers.iter().all(|u| kept(u)) {
                    lo_pats.insert(s.mid);
                }
            }
        }
        if pubsub {
            hi = hi.min(1);
        }
        (lo_pats.len().min(hi), hi)
    };
    let got = |p: &OpRec, a: usize| -> Vec<&Span> { v.hs(p.mid).into_iter().filter(|s| s.actor == a && s.s.starts_with('n')).collect() };
    let settled = h.iter().find(|e| e.k == "settled").map(|e| e.n).unwrap_or(0);
    for a in 0..sc.subs.len() {
        let died = v.first_op("kill", a).is_some() || v.first_op("stop", a).is_some() || v.of(a).iter().any(|s| s.code == 1 || s.code == 2);
        // never handles anything again
        let stuck = v.of(a).iter().any(|s| !s.done());
        // past its startup, whose end also takes a place in the mailbox for a moment
        let ready = |p: &OpRec| v.started(a).is_some_and(|s| s.t1.is_some_and(|t| t < p.t)) || v.hook(a, "h").iter().any(|s| s.n0 < p.n);
        let directs: Vec<_> = v.ops.iter().filter(|o| o.has("direct") && o.actor == a as i64 && o.code() == Some(OK)).collect();
        for p in &pubs {
            let (lo, hi) = bounds(p, a);
            let g = got(p, a);
            if matches!(sc.hub, HubKind::Bus(_)) && g.iter().any(|s| s.s != format!("n{}", p.actor)) {
                out.push(viol("wrong-type", describe(p)));
            }
            if g.len() > hi {
                out.push(viol("excess-delivery", format!("{} reached subscriber {a} {} times, at most {hi} expected", describe(p), g.len())));
            }
            if died || stuck || g.len() >= lo || !p.accepted() {
                continue;
            }
            let miss = |out: &mut Vec<Violation>| out.push(viol("missing-delivery", format!("{} reached subscriber {a} {} times, at least {lo} expected", describe(p), g.len())));
            if matches!(strat, Strat::Guaranteed | Strat::Spawned) || sc.subs[a].cap.is_none() {
                miss(&mut out);
                continue;
            }
            // could the mailbox have been full?
            let until = if p.is_ask() && !strat.spawned() { p.ret.as_ref().map(|r| r.n).unwrap_or(u64::MAX) } else { u64::MAX };
            let mut occ = hi - 1;
            for q in &pubs {
                let (_, qhi) = bounds(q, a);
                if q.uid == p.uid || qhi == 0 || q.n > until || (!strat.spawned() && sure_before(p, q)) {
                    continue;
                }
                occ += qhi.saturating_sub(got(q, a).iter().filter(|s| s.n0 < p.n).count());
            }
            for d in &directs {
                if d.n < until && !v.hs(d.mid).iter().any(|s| s.n0 < p.n) {
                    occ += 1;
                }
            }
            let full_possible = occ >= sc.subs[a].cap.unwrap() || !ready(p);
            if !full_possible {
                miss(&mut out);
            } else if let (Strat::SpawnedTimed(d), Some(acc), true) = (strat, p.acc_n(), ready(p)) {
                // was there room, at a moment when all that could run had run, before the time was up?
                let room = h.windows(2).find(|w| {
                    w[1].t > w[0].t && w[0].n >= acc && w[0].t < p.t + d * 1_000_000 && {
                        let n = w[0].n;
                        let mut occ = hi - 1;
                        for q in &pubs {
                            if q.uid != p.uid && q.n < n {
                                occ += bounds(q, a).1.saturating_sub(got(q, a).iter().filter(|s| s.n0 < n).count());
                            }
                        }
                        occ += directs.iter().filter(|o| o.n < n && !v.hs(o.mid).iter().any(|s| s.n0 < n)).count();
                        occ < sc.subs[a].cap.unwrap()
                    }
                });
                if let Some(w) = room {
                    out.push(viol("missed-with-room", format!("{} missed subscriber {a}, whose mailbox had room at event {} ({} ms), within {d} ms", describe(p), w[0].n, w[0].ms())));
                }
            } else if let (Strat::Timed(d), true, Some(r)) = (strat, p.is_ask(), &p.ret) {
                if r.t - p.t < d * 1_000_000 {
                    out.push(viol("gave-up-early", format!("{} missed subscriber {a} after less than {d} ms", describe(p))));
                }
            }
        }
        // publication order
        if !strat.spawned() {
            for p in &pubs {
                let gp = got(p, a);
                let Some(last) = gp.iter().map(|s| s.n0).max() else { continue };
                for q in &pubs {
                    if sure_before(p, q) && got(q, a).iter().any(|s| s.n0 < last) {
                        out.push(viol("reordered", format!("subscriber {a} received a later publication first: {} and {}", describe(p), describe(q))));
                    }
                }
            }
        }
        // a dead subscriber leaves the list once a matching publication has met it
        let dropped = v.drop.get(&a).is_some_and(|d| d.0 < settled);
        if died && dropped {
            let probes: Vec<_> = pubs.iter().filter(|p| p.who == -2).collect();
            let all_met = subs.iter().filter(|s| s.actor == a as i64).all(|s| probes.iter().any(|p| matches(s, p)));
            if all_met {
                if let Some(e) = h.iter().find(|e| e.k == "final" && e.w == a as i64) {
                    if e.b > 0 {
                        out.push(viol("dead-subscriber-kept", format!("{} references to the dead subscriber {a} remain after publications that met all its subscriptions", e.b)));
                    }
                }
            }
        }
    }
    // strategies that never make the publisher wait
    if matches!(strat, Strat::BestEffort | Strat::Spawned | Strat::SpawnedTimed(_)) {
        for p in pubs.iter().filter(|p| p.is_ask() && p.how == "Ask") {
            if let Some(r) = &p.ret {
                if r.t > p.t {
                    out.push(viol("publisher-blocked", describe(p)));
                }
            }
        }
    }
    out
}
