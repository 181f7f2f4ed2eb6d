//! Reading of a history of several nodes, and the oracles of C24 to C28.
use crate::world::*;
use simrt::runner::{viol, Violation};
use simrt::Ev;
use std::collections::{BTreeMap, HashMap};

pub const MS: u64 = 1_000_000;
pub const S: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Ret {
    pub n: u64,
    pub t: u64,
    pub code: i64,
    pub val: i64,
    pub s: String,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub uid: i64,
    pub client: i64,
    pub a: i64,
    pub node: i64,
    pub how: String,
    pub n: u64,
    pub t: u64,
    pub ret: Option<Ret>,
}
impl Rec {
    pub fn verb(&self) -> &str {
        self.how.split(' ').next().unwrap()
    }
    pub fn has(&self, k: &str) -> bool {
        self.how.split(' ').any(|x| x == k)
    }
    pub fn arg(&self) -> &str {
        self.how.split(' ').nth(1).unwrap_or("")
    }
    pub fn tag(&self, k: &str) -> i64 {
        self.how.split(' ').find_map(|x| x.strip_prefix(k).and_then(|x| x.strip_prefix('=')).and_then(|x| x.parse().ok())).unwrap_or(-1)
    }
    pub fn code(&self) -> Option<i64> {
        self.ret.as_ref().map(|r| r.code)
    }
    pub fn is_req(&self) -> bool {
        matches!(self.verb(), "req" | "warm" | "final")
    }
}
#[derive(Clone, Debug)]
pub struct Handled {
    pub actor: i64,
    pub n: u64,
    pub t: u64,
    pub good: bool,
    pub done: Option<(u64, i64)>,
    pub done_t: u64,
}
#[derive(Clone, Debug)]
pub struct ActorRec {
    pub host: i64,
    pub node: i64,
    pub other: bool,
    /// first thing that can have made it end
    pub cause: Option<(u64, u64)>,
    pub stop: Option<(u64, u64, i64)>,
    /// the reason it ended with
    pub why: String,
}
#[derive(Clone, Debug)]
pub struct Died {
    pub n: u64,
    pub t: u64,
    pub who: i64,
    pub of: i64,
    pub reason: i64,
    pub why: String,
}
#[derive(Default)]
pub struct View {
    pub ops: Vec<Rec>,
    pub handled: HashMap<i64, Vec<Handled>>,
    pub actors: BTreeMap<i64, ActorRec>,
    pub died: Vec<Died>,
    /// (node, other node) to changes of the number of connections: time, count afterwards
    pub conns: BTreeMap<(i64, i64), Vec<(u64, i64)>>,
    pub downs: Vec<(i64, i64, u64)>,
    pub crash: BTreeMap<i64, (u64, u64)>,
    pub go: u64,
    pub calm: u64,
    pub settled: u64,
    pub over: Option<u64>,
    /// node to host
    pub nodes: BTreeMap<i64, i64>,
    pub panics: Vec<String>,
    /// requests without any sense which were answered with success
    pub evil_ok: Vec<String>,
    pub end_t: u64,
}

impl View {
    pub fn new(sc: &Scenario, h: &[Ev]) -> View {
        let mut v = View::default();
        let mut ix: HashMap<i64, usize> = HashMap::new();
        for e in h {
            v.end_t = e.t;
            match e.k.as_str() {
                "inv" => {
                    ix.insert(e.id, v.ops.len());
                    v.ops.push(Rec { uid: e.id, client: e.w, a: e.a, node: e.b, how: e.s.clone(), n: e.n, t: e.t, ret: None });
                }
                "ret" => {
                    if let Some(i) = ix.get(&e.id) {
                        v.ops[*i].ret = Some(Ret { n: e.n, t: e.t, code: e.a, val: e.b, s: e.s.clone() });
                    }
                }
                "hb" => v.handled.entry(e.id).or_default().push(Handled { actor: e.w, n: e.n, t: e.t, good: e.a == 1, done: None, done_t: 0 }),
                "he" => {
                    if let Some(x) = v.handled.get_mut(&e.id).and_then(|x| x.iter_mut().rev().find(|x| x.actor == e.w && x.done.is_none())) {
                        x.done = Some((e.n, e.a));
                        x.done_t = e.t;
                    }
                    if e.a == 2 && !sc.actors[(e.w % 100) as usize].tough {
                        let a = v.actors.get_mut(&e.w).unwrap();
                        a.cause = a.cause.or(Some((e.n, e.t)));
                    }
                }
                "actor" => {
                    v.actors.insert(e.w, ActorRec { host: e.a, node: e.b, other: e.s == "other", cause: None, stop: None, why: String::new() });
                }
                "end" => {
                    if let Some(a) = v.actors.get_mut(&e.a) {
                        a.cause = a.cause.or(Some((e.n, e.t)));
                    }
                }
                "stop" => {
                    let a = v.actors.get_mut(&e.w).unwrap();
                    if a.stop.is_none() {
                        a.stop = Some((e.n, e.t, e.a));
                        a.why = e.s.clone();
                    }
                    a.cause = a.cause.or(Some((e.n, e.t)));
                }
                "died" => {
                    v.died.push(Died { n: e.n, t: e.t, who: e.w, of: e.id, reason: e.a, why: e.s.clone() });
                    if e.a != 0 && sc.actors[(e.w % 100) as usize].mortal {
                        let a = v.actors.get_mut(&e.w).unwrap();
                        a.cause = a.cause.or(Some((e.n, e.t)));
                    }
                }
                "crash" => {
                    v.crash.insert(e.id, (e.n, e.t));
                }
                "cup" | "cdown" => {
                    let other: i64 = e.s.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(-1);
                    let l = v.conns.entry((e.b, other)).or_default();
                    let c = l.last().map_or(0, |x| x.1) + if e.k == "cup" { 1 } else { -1 };
                    l.push((e.t, c));
                    if e.k == "cdown" {
                        v.downs.push((e.b, other, e.t));
                    }
                }
                "node" => {
                    v.nodes.insert(e.id, e.w);
                }
                "go" => v.go = e.t,
                "calm" => v.calm = e.t,
                "settled" => v.settled = e.t,
                "over" => v.over = Some(e.t),
                "evilok" => v.evil_ok.push(e.s.clone()),
                "panic" => {
                    if !e.s.ends_with("by the harness") {
                        v.panics.push(e.s.clone())
                    }
                }
                _ => {}
            }
        }
        v
    }
    /// the least and greatest number of connections that `a` had to `b` within a time span
    pub fn range(&self, a: i64, b: i64, from: u64, to: u64) -> (i64, i64) {
        let Some(l) = self.conns.get(&(a, b)) else { return (0, 0) };
        let start = l.iter().take_while(|x| x.0 < from).last().map_or(0, |x| x.1);
        let (mut lo, mut hi) = (start, start);
        for (_, c) in l.iter().filter(|x| x.0 >= from && x.0 <= to) {
            lo = lo.min(*c);
            hi = hi.max(*c);
        }
        (lo, hi)
    }
    fn lost(&self, a: i64, b: i64, from: u64, to: u64) -> bool {
        self.downs.iter().any(|d| ((d.0 == a && d.1 == b) || (d.0 == b && d.1 == a)) && d.2 + S >= from && d.2 <= to)
            || self.crash.get(&b).is_some_and(|c| c.1 <= to)
    }
    pub fn host(&self, node: i64) -> i64 {
        self.nodes.get(&node).copied().unwrap_or(-1)
    }
    fn node_gone(&self, node: i64) -> bool {
        self.crash.contains_key(&node)
    }
    /// neither ended nor on a crashed node
    fn alive(&self, idx: i64) -> bool {
        self.actors.get(&idx).is_some_and(|a| a.cause.is_none() && !self.node_gone(a.node))
    }
}

pub fn show(o: &Rec) -> String {
    format!("op {} of client {} on node {} ({}, actor {}): {:?}", o.uid, o.client, o.node, o.how, o.a, o.ret.as_ref().map(|r| (r.code, r.val, &r.s)))
}

/// What every run must satisfy.
pub fn common(v: &View, out: &mut Vec<Violation>) {
    for p in &v.panics {
        out.push(viol("panic", p.clone()));
    }
    if v.over.is_none() {
        out.push(viol("no-end", "the run did not finish"));
    }
    for o in &v.ops {
        match o.code() {
            Some(HANG) => {
                // a request of the actor's own node has no limit but its own, and waits for what the actor does before it
                let r = o.ret.as_ref().unwrap();
                let own = v.actors.get(&o.a).is_some_and(|a| a.node == o.node);
                let open = !v.handled.get(&o.uid).is_some_and(|h| h.iter().any(|h| h.done.is_some_and(|d| d.0 < r.n)));
                let busy = v.handled.values().flatten().any(|h| h.actor == o.a && h.n < r.n && h.done.is_none_or(|d| d.0 > r.n));
                if !(own && open && busy) {
                    out.push(viol("hang", show(o)));
                }
            }
            None if !v.node_gone(o.node) => out.push(viol("hang", show(o))),
            _ => {}
        }
    }
}

pub fn c24(sc: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = vec![];
    common(v, &mut out);
    let none = vec![];
    for o in v.ops.iter().filter(|o| o.is_req()) {
        let hs = v.handled.get(&o.uid).unwrap_or(&none);
        let Some(a) = v.actors.get(&o.a) else { continue };
        let spec = &sc.actors[(o.a % 100) as usize];
        let mut bad = |class: &str| out.push(viol(class, format!("{} handled {:?}", show(o), hs)));
        if hs.len() > 1 {
            bad("handled-twice");
        }
        if hs.iter().any(|h| h.actor != o.a) {
            bad("wrong-actor");
        }
        if hs.iter().any(|h| !h.good) {
            bad("message-changed");
        }
        let Some(r) = &o.ret else { continue };
        let ms = (r.t - o.t) / MS;
        let ask = o.has("ask") || o.has("try-ask");
        let immediate = o.has("try-ask") || o.has("try-tell");
        let ended = a.cause.is_some_and(|c| c.0 < r.n);
        let crashed = v.node_gone(a.node);
        let local = o.node == a.node;
        // libp2p hands the request that waits longest to the stream which is negotiated first, so that the
        // timeout of an older stream may hit a younger request
        let slow = faulty(sc) || sc.lat.max > 50_000;
        let older = |ms: u64| v.ops.iter().any(|p| p.n < o.n && p.node == o.node && p.t + ms * MS <= r.t);
        match r.code {
            OK if ask => {
                if r.val != 1 {
                    bad("wrong-reply");
                }
                if o.tag("kind") != 0 || !hs.iter().any(|h| h.done.is_some_and(|d| d.0 < r.n && d.1 == 0)) {
                    bad("success-without-handling");
                }
            }
            OK => {
                if o.tag("kind") > 6 || hs.is_empty() && a.cause.is_none() && !crashed {
                    bad("success-without-handling");
                }
            }
            HANDLER => {
                if !ask || r.val != 1 || !hs.iter().any(|h| h.done.is_some_and(|d| d.0 < r.n && d.1 == 1)) || o.tag("kind") != 1 {
                    bad("wrong-error");
                }
            }
            NOT_RUNNING => {
                if !ended {
                    bad("not-running-but-it-runs");
                }
            }
            STOPPED => {
                let panicked = hs.iter().any(|h| h.done.is_some_and(|d| d.1 == 2));
                if !(ended || panicked) || !ask {
                    bad("stopped-but-it-runs");
                }
            }
            FULL => {
                if !immediate || spec.cap.is_none() {
                    bad("full-without-reason");
                }
            }
            TIMEOUT => {
                let limits: Vec<i64> = [if immediate { -1 } else { o.tag("mb") }, if ask { o.tag("rp") } else { -1 }].into_iter().filter(|x| *x >= 0).collect();
                match limits.iter().min() {
                    Some(l) if ms as i64 >= *l => {}
                    _ => bad("timeout-without-reason"),
                }
            }
            DIAL => {
                if local || v.range(o.node, a.node, o.t.saturating_sub(S / 2), r.t).0 > 0 {
                    bad("dial-failure-while-connected");
                }
            }
            CLOSED | IO | PROTO => {
                let lost = v.lost(o.node, a.node, o.t, r.t);
                // a stream which carries more than it may is closed
                let big = o.tag("len") > 400_000;
                if local || !(lost || big || (r.code != PROTO && (ms >= 9000 || (slow && older(9000))))) {
                    bad("closed-while-connected");
                }
            }
            NET_TIMEOUT => {
                if local || (ms < 9990 && !(slow && older(9990))) {
                    bad("early-network-timeout");
                }
            }
            CODEC => {
                let k = o.tag("kind");
                let fits = match k {
                    3 | 4 => ask && hs.iter().any(|h| h.done.is_some_and(|d| d.0 < r.n)) && r.s.contains(if k == 3 { "serialize reply" } else { "deserialize" }),
                    5 | 6 => ask && hs.iter().any(|h| h.done.is_some_and(|d| d.0 < r.n)) && r.s.contains(if k == 5 { "serialize error" } else { "deserialize error" }),
                    7 => hs.is_empty() && r.s.contains("serialize message"),
                    8 => hs.is_empty() && r.s.contains("deserialize message"),
                    _ => false,
                };
                if !fits {
                    bad("codec-error-without-reason");
                }
            }
            HANG | GAVE_UP => {}
            _ => bad("unexpected-error"),
        }
        // the message which cannot be read is not handled
        if o.tag("kind") > 6 && !hs.is_empty() {
            bad("unreadable-message-handled");
        }
        // limits are kept
        let rp = if ask { o.tag("rp") } else { -1 };
        let mb = if immediate { 0 } else { o.tag("mb") };
        let slack = 300 * MS;
        if rp >= 0 && r.code == OK && hs.iter().any(|h| h.done.is_some() && h.done_t > h.t + rp as u64 * MS + slack) {
            bad("reply-after-timeout");
        }
        let bounded = spec.cap.is_none() || mb >= 0;
        if bounded && rp >= 0 && !slow && !matches!(r.code, HANG | GAVE_UP | DIAL) {
            let limit = (mb.max(0) + rp) as u64 * MS + slack + 8 * sc.lat.max as u64 * 1000 + o.tag("len") as u64 * 1000;
            if o.tag("len") <= 400_000 && r.t - o.t > limit && (local || v.range(o.node, a.node, o.t, r.t).0 > 0) {
                bad("limit-exceeded");
            }
        }
        if !ask && mb >= 0 && !slow && r.code == OK && r.t - o.t > mb as u64 * MS + slack + 8 * sc.lat.max as u64 * 1000 + o.tag("len") as u64 * 1000 && (local || v.range(o.node, a.node, o.t, r.t).0 > 0) {
            bad("accepted-after-timeout");
        }
        let both_deaf = |x: i64, y: i64| x != y && sc.deaf.iter().any(|d| v.host(x) == *d as i64) && sc.deaf.iter().any(|d| v.host(y) == *d as i64);
        if o.verb() == "final" && r.code != OK && a.cause.is_none() && !crashed && !both_deaf(o.node, a.node) {
            let busy = v.ops.iter().any(|p| p.verb() == "req" && p.a == o.a && v.handled.get(&p.uid).is_some_and(|h| h.iter().any(|h| h.done.is_none_or(|d| d.0 > o.n))));
            if !busy {
                bad("unreachable-after-faults");
            }
        }
    }
    out
}

pub fn c25(_: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = vec![];
    let mut last: HashMap<(i64, i64), (&Rec, u64)> = HashMap::new();
    for o in v.ops.iter().filter(|o| o.verb() == "req") {
        let hs = v.handled.get(&o.uid);
        for h in hs.into_iter().flatten() {
            if !h.good {
                out.push(viol("message-changed", show(o)));
            }
        }
        if o.code() == Some(CODEC) {
            out.push(viol("unreadable-on-arrival", show(o)));
        }
        if o.code() == Some(HANDLER) && o.ret.as_ref().unwrap().val != 1 {
            out.push(viol("error-changed", show(o)));
        }
        if o.code() != Some(OK) {
            continue;
        }
        if (o.has("ask") || o.has("try-ask")) && o.ret.as_ref().unwrap().val != 1 {
            out.push(viol("reply-changed", show(o)));
        }
        let Some(h) = hs.and_then(|h| h.first()) else { continue };
        if let Some((p, hn)) = last.get(&(o.client, o.a)) {
            if p.ret.as_ref().unwrap().n < o.n && *hn > h.n {
                out.push(viol("overtaken", format!("{} was handled before {}", show(o), show(p))));
            }
        }
        last.insert((o.client, o.a), (o, h.n));
    }
    out
}

/// Faults after which registration may fail or be incomplete.
fn faulty(sc: &Scenario) -> bool {
    sc.faults.iter().any(|f| !matches!(f.1, Fault::Dial(..))) || sc.lat.max > 300_000 || sc.lat.spike > 0 || sc.evil.is_some() || !sc.deaf.is_empty()
}

pub fn c26(sc: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = vec![];
    common(v, &mut out);
    let faulty = faulty(sc);
    // every host knows every other
    let mesh = sc.deaf.is_empty() && (0..sc.hosts).all(|a| (a + 1..sc.hosts).all(|b| sc.mdns.contains(&(a, b)) || sc.mdns.contains(&(b, a))));
    let regs: Vec<&Rec> = v.ops.iter().filter(|o| o.verb() == "register").collect();
    let unregs: Vec<&Rec> = v.ops.iter().filter(|o| o.verb() == "unregister").collect();
    let other = |idx: i64| v.actors.get(&idx).is_some_and(|a| a.other);
    for o in &regs {
        if let Some(r) = &o.ret {
            if !matches!(r.code, OK | HANG | GAVE_UP) && !faulty && mesh && o.client >= 0 {
                out.push(viol("register-failed", show(o)));
            }
            if !matches!(r.code, OK | QUORUM | REG_TIMEOUT | HANG | GAVE_UP) {
                out.push(viol("register-error", show(o)));
            }
        }
    }
    // what was found by its name takes messages
    for o in v.ops.iter().filter(|o| o.is_req()) {
        let Some(a) = v.actors.get(&o.a) else { continue };
        if matches!(o.code(), Some(NOT_RUNNING | BAD)) && !a.cause.is_some_and(|c| c.0 < o.ret.as_ref().unwrap().n) {
            out.push(viol("found-but-not-running", show(o)));
        }
    }
    for o in v.ops.iter().filter(|o| matches!(o.verb(), "lookup" | "final-lookup" | "local")) {
        let Some(r) = &o.ret else { continue };
        let local = o.verb() == "local";
        let name = o.arg();
        let ever: Vec<&&Rec> = regs.iter().filter(|g| g.arg() == name && g.n < r.n).collect();
        let want_other = !local && o.a == 1;
        match r.code {
            FOUND => {
                if !ever.iter().any(|g| g.a == r.val) {
                    out.push(viol("unrelated-actor", show(o)));
                } else if other(r.val) != want_other {
                    out.push(viol("wrong-type-found", show(o)));
                } else if local && v.actors[&r.val].node != o.node {
                    out.push(viol("local-finds-remote", show(o)));
                }
            }
            BAD_TYPE => {
                if !ever.iter().any(|g| other(g.a) != want_other) {
                    out.push(viol("bad-type-without-reason", show(o)));
                }
            }
            NONE | HANG | GAVE_UP => {}
            QUORUM | REG_TIMEOUT if faulty && o.verb() != "final-lookup" => {}
            _ => out.push(viol("lookup-error", show(o))),
        }
        // what must be found
        let settled = o.verb() == "final-lookup";
        let unreg = unregs.iter().any(|u| u.arg() == name && u.n < r.n);
        let all: Vec<&&Rec> = regs.iter().filter(|g| g.arg() == name).collect();
        let names_actor: std::collections::BTreeSet<i64> = all.iter().map(|g| g.a).collect();
        let first_ok = ever.iter().find(|g| g.ret.as_ref().is_some_and(|x| x.code == OK && x.n < o.n));
        if let (Some(g), false, 1) = (first_ok, unreg, names_actor.len()) {
            let a = &v.actors[&g.a];
            let up = a.cause.is_none() && !v.node_gone(a.node);
            let same = a.node == o.node;
            let connected = same || (!v.lost(o.node, a.node, o.t, r.t) && v.range(o.node, a.node, o.t.saturating_sub(S), r.t).0 > 0 && v.range(a.node, o.node, o.t.saturating_sub(S), r.t).0 > 0);
            let quiet = settled || !faulty;
            if up && mesh && ((quiet && connected && !local) || (same && (local || quiet))) {
                let expect_type = want_other == a.other;
                let good = if expect_type { r.code == FOUND && r.val == g.a } else { r.code == BAD_TYPE };
                if !good && !matches!(r.code, HANG | GAVE_UP) && !(local && a.other) {
                    out.push(viol("not-found", show(o)));
                }
            }
        }
        // what must not be found
        if mesh && !faulty && !ever.is_empty() {
            // unregistered, and not registered since
            let last_un = unregs.iter().filter(|u| u.arg() == name && u.code() == Some(OK)).map(|u| u.ret.as_ref().unwrap()).filter(|x| x.n < o.n).map(|x| (x.n, x.t)).max();
            if let Some((_, t)) = last_un {
                let un = unregs.iter().filter(|u| u.arg() == name && u.code() == Some(OK)).find(|u| u.ret.as_ref().unwrap().t == t).unwrap();
                let before = all.iter().all(|g| g.ret.as_ref().is_some_and(|x| x.code != GAVE_UP && x.t + 3 * S < un.t));
                if before && t + 3 * S < o.t && !matches!(r.code, NONE | HANG | GAVE_UP) {
                    out.push(viol("found-after-unregister", show(o)));
                }
            }
        }
    }
    out
}

pub fn c27(sc: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = vec![];
    common(v, &mut out);
    let links: Vec<&Rec> = v.ops.iter().filter(|o| matches!(o.verb(), "link" | "linkrr")).collect();
    let unlinks: Vec<&Rec> = v.ops.iter().filter(|o| matches!(o.verb(), "unlink" | "unlinkrr")).collect();
    let pair = |o: &Rec, x: i64, y: i64| (o.a == x && o.tag("b") == y) || (o.a == y && o.tag("b") == x);
    for d in &v.died {
        let det = format!("actor {} was told at {} ms that {} died, reason {}", d.who, d.t / MS, d.of, d.reason);
        let (Some(x), Some(y)) = (v.actors.get(&d.who), v.actors.get(&d.of)) else {
            out.push(viol("unknown-actor-died", det));
            continue;
        };
        let Some(first) = links.iter().find(|l| pair(l, d.who, d.of) && l.n < d.n) else {
            out.push(viol("not-linked", det));
            continue;
        };
        let as_it_ended = y.stop.is_some_and(|s| s.0 < d.n && s.2 == d.reason) && y.why == d.why;
        if d.reason == 4 && !as_it_ended {
            if x.node == y.node {
                out.push(viol("disconnected-from-itself", det));
            } else if v.range(x.node, y.node, first.t, d.t).0 > 0 {
                out.push(viol("disconnected-while-connected", det));
            }
        } else {
            if !as_it_ended {
                out.push(viol("false-death", format!("{det} ({}), which ended {:?} ({})", d.why, y.stop, y.why)));
            }
        }
    }
    // at most one report per link
    let mut count: BTreeMap<(i64, i64), usize> = BTreeMap::new();
    for d in &v.died {
        *count.entry((d.who, d.of)).or_default() += 1;
    }
    for ((x, y), c) in &count {
        let n = links.iter().filter(|l| pair(l, *x, *y)).count();
        if *c > n {
            out.push(viol("reported-twice", format!("actor {x} was told {c} times that {y} died, after {n} link operations")));
        }
    }
    // nothing after an unlink
    for u in unlinks.iter().filter(|u| u.code() == Some(OK)) {
        let r = u.ret.as_ref().unwrap();
        let (x, y) = (u.a, u.tag("b"));
        let clean = links.iter().filter(|l| pair(l, x, y)).all(|l| l.ret.as_ref().is_some_and(|lr| lr.t + 11 * S < u.t || (lr.code == OK && lr.n < u.n)));
        if !clean {
            continue;
        }
        for d in v.died.iter().filter(|d| (d.who, d.of) == (x, y) || (d.who, d.of) == (y, x)) {
            // what happened before may still be on its way
            let cause = if d.reason == 4 {
                let (a, b) = (v.actors[&d.who].node, v.actors[&d.of].node);
                v.range(a, b, r.t.saturating_sub(2 * S), d.t).0 > 0 || (v.range(a, b, u.t, r.t).0 > 0 && !v.downs.iter().any(|x| ((x.0, x.1) == (a, b) || (x.0, x.1) == (b, a)) && x.2 + 10 * S >= u.t && x.2 <= r.t))
            } else {
                false
            } || v.actors[&d.of].cause.is_some_and(|c| c.0 > r.n);
            if cause && d.n > r.n {
                out.push(viol("reported-after-unlink", format!("{}, then {d:?}", show(u))));
            }
        }
    }
    // what must be reported
    for l in links.iter().filter(|l| l.code() == Some(OK)) {
        let lr = l.ret.as_ref().unwrap();
        for (x, y) in [(l.a, l.tag("b")), (l.tag("b"), l.a)] {
            let (Some(ax), Some(ay)) = (v.actors.get(&x), v.actors.get(&y)) else { continue };
            if unlinks.iter().any(|u| pair(u, x, y)) || !v.alive(x) {
                continue;
            }
            let told: Vec<&Died> = v.died.iter().filter(|d| d.who == x && d.of == y && d.n > l.n).collect();
            // the other actor ended while they were connected
            if let Some((n, t, reason)) = ay.stop {
                let linked = ay.cause.is_some_and(|c| c.0 > lr.n);
                let to = (t + 12 * S).min(v.end_t);
                let conn = ax.node == ay.node
                    || (v.range(ax.node, ay.node, l.t, to).0 > 0 && v.range(ay.node, ax.node, l.t, to).0 > 0);
                let slow = sc.lat.max > 1_000_000 || sc.lat.spike > 0 || sc.faults.iter().any(|f| matches!(f.1, Fault::Net(..) | Fault::Partition(..) | Fault::Reset(..)));
                let _ = n;
                if linked && conn && !slow && !v.node_gone(ay.node) {
                    // one whose peer is gone may be told that as well
                    match told.iter().filter(|d| d.reason == reason).count().min(if reason == 4 { 1 } else { 2 }) {
                        1 => {}
                        0 => out.push(viol("death-not-reported", format!("{x} was never told of the end of {y}; {}", show(l)))),
                        _ => out.push(viol("death-reported-twice", format!("{x} about {y}; {}", show(l)))),
                    }
                }
            }
            // the connection was lost entirely, and for good enough
            if ax.node != ay.node {
                let zero = v.conns.get(&(ax.node, ay.node)).and_then(|c| {
                    c.iter().enumerate().find(|(i, e)| e.0 > lr.t && e.1 == 0 && c.get(i + 1).map_or(v.end_t, |q| q.0) >= e.0 + 200 * MS).map(|(_, e)| e.0)
                });
                if let Some(z) = zero {
                    let before = ay.cause.is_some_and(|c| c.1 < z);
                    if !before && told.is_empty() && z + 5 * S < v.end_t && v.range(ax.node, ay.node, l.t.saturating_sub(MS), lr.t).0 > 0 {
                        out.push(viol("disconnect-not-reported", format!("{x} was never told about {y} although its node lost the connection at {} ms; {}", z / MS, show(l))));
                    }
                }
            }
        }
    }
    out
}

pub fn c28(sc: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = c24(sc, v);
    for x in v.evil_ok.iter().take(1) {
        out.push(viol("nonsense-answered-with-success", x.clone()));
    }
    for o in v.ops.iter().filter(|o| o.verb() == "final-lookup") {
        let Some(r) = &o.ret else { continue };
        let Some(a) = v.ops.iter().find(|g| g.verb() == "register" && g.arg() == o.arg() && g.code() == Some(OK)).and_then(|g| v.actors.get(&g.a)) else { continue };
        if a.cause.is_none() && !v.node_gone(a.node) && o.arg().starts_with('n') && r.code != FOUND {
            out.push(viol("lookup-fails-afterwards", show(o)));
        }
    }
    out
}
