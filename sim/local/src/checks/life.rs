//! C07–C13: lifecycle, startup order, graceful stop, kill, references, failures, waiters.
use super::core::{chaos, first_stop, fwd_how, lost};
use super::*;
use crate::gen::G;
use std::collections::HashMap;

pub static LIST: &[P] = &[
    P {
        id: "C07",
        gen: gen07,
        judge: judge07,
        nontrivial: |_, v| v.spans.iter().any(|s| s.k == "stp") && v.spans.len() >= 4,
        rule: "at least one actor stopped and four handlers or hooks ran; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C08",
        gen: gen08,
        judge: judge08,
        nontrivial: |_, v| v.by_actor.keys().any(|a| v.started(*a).map(|s| v.sends().any(|o| o.actor == *a as i64 && o.who != 1000 + *a as i64 && o.acc_n().map(|n| s.n1.map(|e| n < e).unwrap_or(false)).unwrap_or(false))).unwrap_or(false)),
        rule: "at least one message from elsewhere was accepted before on_start finished; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C09",
        gen: gen09,
        judge: judge09,
        nontrivial: |_, v| v.ops.iter().any(|o| o.how == "stop" && o.code() == Some(OK)) && v.sends().filter(|o| o.accepted()).count() >= 2,
        rule: "at least one stop request was accepted and two sends were accepted; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C10",
        gen: gen10,
        judge: judge10,
        nontrivial: |_, v| v.ops.iter().any(|o| o.how == "kill" && v.stop(o.actor as usize).map(|s| s.n0 > o.n).unwrap_or(false)),
        rule: "at least one running actor was killed; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: true,
    },
    P {
        id: "C11",
        gen: gen11,
        judge: judge11,
        nontrivial: |_, v| v.ops.iter().any(|o| o.how == "upgrade") || v.spans.iter().any(|s| s.k == "stp"),
        rule: "at least one actor stopped for want of references or a weak reference was upgraded; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: false,
    },
    P {
        id: "C12",
        gen: gen12,
        judge: judge12,
        nontrivial: |_, v| v.spans.iter().any(|s| s.k == "pan"),
        rule: "at least one failure reached on_panic; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C13",
        gen: gen13,
        judge: judge13,
        nontrivial: |_, v| v.ops.iter().any(|o| (o.how == "waitstart" || o.how == "waitstop") && o.ret.as_ref().map(|r| r.n > o.n + 1).unwrap_or(false)),
        rule: "at least one waiter had to wait and was released; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: true,
    },
    P {
        id: "C32",
        gen: gen32,
        judge: judge32,
        nontrivial: |_, v| v.spans.iter().any(|s| matches!(s.k.as_str(), "start" | "stp") && s.done() && s.code != 0),
        rule: "at least one on_start or on_stop failed; distinct by history and interleaving",
        runs: 40_000,
        stall: false,
        preempt: true,
    },
];

fn sc(actors: Vec<ActorSpec>, tasks: Vec<TaskSpec>) -> Scenario {
    Scenario { actors, tasks, horizon: 5_000, base: 0 }
}

/// Actors whose own task panicked instead of ending.
pub fn task_panics(v: &View) -> Vec<Violation> {
    v.runpanic.iter().map(|a| viol("actor-task-panicked", format!("the task of actor {a} panicked instead of running its shutdown"))).collect()
}

// ---- C07 -----------------------------------------------------------------------------------------

fn gen07(r: &mut Rng) -> Scenario {
    let mut s = chaos(r, 50, true);
    let n = s.actors.len() as u64;
    for t in &mut s.tasks {
        if r.pct(40) {
            for _ in 0..r.range(1, 3) {
                let at = r.below(t.ops.len() as u64 + 1) as usize;
                t.ops.insert(at, Op::Drop(r.below(n) as usize));
            }
        }
    }
    s
}

/// Something certainly ended the actor.
fn must_end(v: &View, a: usize) -> Option<String> {
    if !v.spawn.contains_key(&a) {
        return None;
    }
    for o in &v.ops {
        if o.actor == a as i64 && (o.how == "kill" || o.how == "stop") && o.code() == Some(OK) {
            return Some(format!("{} request at event {}", o.how, o.n));
        }
    }
    for s in v.of(a) {
        let why = match s.k.as_str() {
            "start" if s.done() && s.code != 0 => "on_start failed",
            "pan" if s.done() && !(s.code == 0 && s.val == 1) => "on_panic did not continue",
            "lnk" if s.done() && s.code == 0 && s.val != 0 => "on_link_died stopped it",
            _ => continue,
        };
        return Some(format!("{why} at event {}", s.n1.unwrap()));
    }
    None
}

fn judge07(_sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = task_panics(v);
    for a in v.spawn.keys() {
        let sp = v.of(*a);
        let starts = sp.iter().filter(|s| s.k == "start").count();
        if starts != 1 {
            out.push(viol("on-start-count", format!("actor {a}: on_start ran {starts} times")));
            continue;
        }
        if sp[0].k != "start" {
            out.push(viol("before-on-start", format!("actor {a}: {} {} ran before on_start", sp[0].k, sp[0].id)));
        }
        if let Some(x) = sp.get(1) {
            if sp[0].n1.map(|e| e > x.n0).unwrap_or(true) {
                out.push(viol("before-on-start", format!("actor {a}: {} {} began at event {} before on_start ended", x.k, x.id, x.n0)));
            }
        }
        if sp[0].done() && sp[0].code != 0 {
            if let Some(x) = sp.iter().find(|s| s.k == "h" || s.k == "lnk") {
                out.push(viol("ran-after-failed-start", format!("actor {a}: {} {} ran although on_start failed", x.k, x.id)));
            }
        }
        let stops: Vec<_> = sp.iter().enumerate().filter(|(_, s)| s.k == "stp").collect();
        if stops.len() > 1 {
            out.push(viol("on-stop-twice", format!("actor {a}: on_stop ran {} times", stops.len())));
        }
        if let Some((i, _)) = stops.first() {
            if let Some(x) = sp.get(i + 1) {
                out.push(viol("after-on-stop", format!("actor {a}: {} {} began at event {} after on_stop", x.k, x.id, x.n0)));
            }
        }
        match (v.drop.get(a), stops.first()) {
            (Some(d), Some((_, s))) => {
                if s.n1.map(|e| e > d.0).unwrap_or(true) {
                    out.push(viol("state-dropped-before-on-stop-ended", format!("actor {a}: state dropped at event {}", d.0)));
                }
            }
            (Some(d), None) => out.push(viol("on-stop-skipped", format!("actor {a}: state dropped at event {} without on_stop", d.0))),
            (None, Some((_, s))) if v.end > 0 => out.push(viol("state-not-dropped", format!("actor {a}: on_stop ran at event {} but the state was never dropped", s.n0))),
            _ => {}
        }
        if v.end > 0 && stops.is_empty() {
            if let Some(why) = must_end(v, *a) {
                out.push(viol("on-stop-never", format!("actor {a}: on_stop never ran: {why}")));
            }
        }
        for s in &sp {
            if s.k == "h" && s.b != 1 {
                out.push(viol("bypassed-on-message", format!("actor {a}: message {} was handled without on_message", s.id)));
            }
        }
    }
    out
}

// ---- C08 -----------------------------------------------------------------------------------------

fn gen08(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 2) as usize;
    let fail = g.r.pct(30);
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: *g.r.pick(&[None, Some(1), Some(2), Some(3), Some(4), Some(8)]), how: g.spawn_how(true), ..Default::default() };
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(40);
        a.panic_hook = PanicHook::Continue;
        if g.r.pct(70) {
            a.start.extend(g.pause());
        }
        for _ in 0..g.r.below(4) {
            let mut m = g.plain();
            if fail && g.r.pct(25) {
                m.end = *g.r.pick(&[End::Err, End::Panic]);
            }
            // a handler of a startup message that sends to itself again
            if g.r.pct(15) {
                let m2 = g.plain();
                let o = g.send(i, How::TryTell, m2);
                m.body.push(o);
            }
            if g.r.pct(35) {
                // a request to itself, whose reply it cannot wait for
                let how = *g.r.pick(&[How::Ask, How::TryAsk, How::Enq, How::TryEnq]);
                let mt = if a.cap.is_some() && !how.is_try() { Some(g.r.range(1, 4)) } else { None };
                let cx = if how == How::Ask && g.r.pct(40) { Some(g.r.below(4)) } else { None };
                let rt = if cx.is_some() { None } else { Some(g.r.range(1, 6)) };
                a.start.push(Op::Send { to: i, how, mt, rt, cx, recipient: false, m });
            } else {
                let how = if a.cap.is_none() && g.r.pct(50) { How::Tell } else { How::TryTell };
                let o = g.send(i, how, m);
                a.start.push(o);
            }
            if g.r.pct(50) {
                let p = g.pause();
                a.start.extend(p);
            }
        }
        actors.push(a);
    }
    let mut tasks = vec![];
    let stop = g.r.pct(15);
    for t in 0..g.r.range(1, 3) {
        let thread = g.r.pct(20);
        let mut ops = vec![];
        let late: Vec<usize> = (0..n).filter(|i| t == 0 && actors[*i].late).collect();
        let k = g.r.range(1, 7);
        let mut spawn_at: Vec<(u64, usize)> = late.into_iter().map(|i| (g.r.below(k), i)).collect();
        spawn_at.sort();
        for j in 0..k {
            for (_, i) in spawn_at.iter().filter(|x| x.0 == j) {
                ops.push(Op::Spawn(*i));
            }
            let to = g.r.below(n as u64) as usize;
            // the spawning task itself must not wait for an actor it has yet to spawn
            let pending = t == 0 && actors[to].late && spawn_at.iter().any(|x| x.1 == to && x.0 > j);
            // forwarded by the first actor to the second, which may still be starting
            let fwd = n == 2 && to == 0 && g.r.pct(30);
            let wait = t == 0 && fwd && actors[1].late;
            let how = if pending || wait {
                *g.r.pick(&[How::TryTell, How::TryEnq])
            } else if thread {
                g.how_thread()
            } else {
                g.how_async()
            };
            let mut m = g.plain();
            if fail && g.r.pct(20) {
                m.end = *g.r.pick(&[End::Err, End::Panic]);
            }
            if fwd {
                m.kind = Kind::Fwd(1, if actors[1].late { FwdHow::Try } else { fwd_how(&mut g, actors[1].cap.is_none()) });
            }
            let o = g.send(to, how, m);
            ops.push(o);
            if g.r.pct(25) {
                ops.extend(g.pause());
            }
            if stop && !pending && g.r.pct(15) {
                ops.push(Op::Stop { to, recipient: false });
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

fn judge08(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = lost(v);
    for a in v.spawn.keys().copied() {
        let Some(st) = v.started(a) else { continue };
        let me = 1000 + a as i64;
        let own: Vec<&OpRec> = v.sends().filter(|o| o.who == me && o.actor == a as i64 && o.n > st.n0 && st.n1.map(|e| o.n < e).unwrap_or(true)).collect();
        let ext: Vec<&OpRec> = v.sends().chain(&v.fwds).filter(|o| o.who != me && o.actor == a as i64).collect();
        for o in &own {
            if o.how == "Tell" && sc.actors[a].cap.is_none() && o.code() != Some(OK) {
                out.push(viol("self-send-failed", describe(o)));
            }
            for x in &ext {
                if let (Some(ho), Some(hx)) = (v.hs(o.mid).first(), v.hs(x.mid).first()) {
                    if hx.n0 < ho.n0 {
                        out.push(viol("outside-message-first", format!("actor {a} handled message {} from elsewhere before message {} it sent itself during startup", x.mid, o.mid)));
                    }
                }
            }
        }
        for set in [&own, &ext] {
            for x in set.iter() {
                for y in set.iter() {
                    if x.acc_n().map(|n| n < y.n).unwrap_or(false) {
                        if let (Some(hx), Some(hy)) = (v.hs(x.mid).first(), v.hs(y.mid).first()) {
                            if hy.n0 < hx.n0 {
                                out.push(viol("startup-order", format!("actor {a} handled message {} before message {} which had arrived earlier", y.mid, x.mid)));
                            }
                        }
                    }
                }
            }
        }
        for s in v.of(a) {
            if s.k == "h" && st.n1.map(|e| s.n0 < e).unwrap_or(true) {
                out.push(viol("handled-during-startup", format!("actor {a} handled message {} before on_start finished", s.id)));
            }
        }
    }
    for o in hangs(v, sc) {
        if o.is_send() {
            out.push(viol("send-hangs", describe(o)));
        }
    }
    out
}

// ---- C09 -----------------------------------------------------------------------------------------

fn gen09(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 2) as usize;
    let fail = g.r.pct(20);
    let mut actors = vec![];
    for _ in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        a.panic_hook = PanicHook::Continue;
        a.start = g.pause();
        a.stop_body = g.pause();
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(20);
        actors.push(a);
    }
    let mut tasks = vec![];
    for t in 0..g.r.range(2, 5) {
        let thread = g.r.pct(20);
        let mut ops = g.pause();
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.push(Op::Spawn(i));
                }
            }
        }
        for _ in 0..g.r.range(1, 7) {
            let to = g.r.below(n as u64) as usize;
            if g.r.pct(18) {
                ops.push(Op::Stop { to, recipient: g.r.pct(30) });
                continue;
            }
            let how = if thread { g.how_thread() } else { g.how_async() };
            let mut m = g.plain();
            if fail && g.r.pct(20) {
                m.end = *g.r.pick(&[End::Err, End::Panic]);
            }
            if actors[to].cap.is_none() && g.r.pct(8) {
                m.body.push(Op::Stop { to, recipient: g.r.pct(30) });
            }
            let o = g.send(to, how, m);
            ops.push(o);
            if g.r.pct(25) {
                ops.extend(g.pause());
            }
        }
        if g.r.pct(30) {
            ops.push(Op::Sleep(200));
            ops.push(Op::Stop { to: g.r.below(n as u64) as usize, recipient: g.r.pct(30) });
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

fn judge09(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for a in v.spawn.keys().copied() {
        let stops: Vec<&OpRec> = v.ops.iter().filter(|o| o.how == "stop" && o.actor == a as i64).collect();
        let accepted_by = stops.iter().filter(|o| o.code() == Some(OK)).filter_map(|o| o.ret.as_ref().map(|r| r.n)).min();
        let first = first_stop(v, a);
        for o in &stops {
            match o.code() {
                Some(OK) => {
                    if let Some(d) = v.drop.get(&a) {
                        if o.n > d.0 {
                            out.push(viol("stop-accepted-by-stopped-actor", describe(o)));
                        }
                    }
                }
                Some(NOT_RUNNING) => {
                    let r = o.ret.as_ref().unwrap();
                    if v.first_cause(a).map(|c| c >= o.n && !stops.iter().any(|p| p.n < r.n && p.uid != o.uid)).unwrap_or(true) {
                        out.push(viol("stop-refused-by-running-actor", describe(o)));
                    }
                }
                None => {}
                _ => out.push(viol("stop-failed", describe(o))),
            }
        }
        if let Some(s) = first {
            for o in v.sends().filter(|o| o.actor == a as i64) {
                if o.acc_n().map(|n| n < s).unwrap_or(false) && !may_drop_messages(v, a) && v.hs(o.mid).is_empty() {
                    out.push(viol("message-before-stop-lost", format!("{}; the first stop request came at event {s}", describe(o))));
                }
            }
        }
        if let Some(rn) = accepted_by {
            for o in v.sends().filter(|o| o.actor == a as i64 && o.n > rn) {
                if let Some(h) = v.hs(o.mid).first() {
                    out.push(viol("message-after-stop-handled", format!("{}; stop was accepted by event {rn}, handled at event {}", describe(o), h.n0)));
                }
                if o.is_ask() && o.code() == Some(OK) {
                    out.push(viol("ask-after-stop-answered", describe(o)));
                }
            }
            if v.end > 0 && v.stop(a).is_none() {
                out.push(viol("never-stopped", format!("actor {a} accepted a stop request by event {rn} and never stopped")));
            }
        }
        if let Some(sp) = v.stop(a) {
            let other = v.killed(a) || v.link_hit(a) || v.started(a).map(|s| s.code != 0).unwrap_or(true) || v.of(a).iter().any(|s| s.k == "pan" && !(s.code == 0 && s.val == 1));
            if !other && sp.s != "normal" {
                out.push(viol("wrong-reason", format!("actor {a} was stopped gracefully but on_stop got reason {}", sp.s)));
            }
        }
        if v.hook(a, "stp").len() > 1 {
            out.push(viol("stopped-twice", format!("actor {a}")));
        }
    }
    for o in hangs(v, sc) {
        if o.is_send() || o.how == "stop" {
            out.push(viol("hangs", describe(o)));
        }
    }
    out
}

// ---- C10 -----------------------------------------------------------------------------------------

fn gen10(r: &mut Rng) -> Scenario {
    let mut s = chaos(r, 100, true);
    let n = s.actors.len() as u64;
    for a in &mut s.actors {
        if r.pct(60) {
            a.start_end = End::Ok;
        }
    }
    for t in &mut s.tasks {
        // longer handlers, so that a kill meets one
        for o in &mut t.ops {
            if let Op::Send { m, .. } = o {
                if r.pct(40) {
                    m.body.push(Op::Sleep(r.range(1, 40)));
                }
            }
        }
        if r.pct(40) {
            let at = r.below(t.ops.len() as u64 + 1) as usize;
            t.ops.insert(at, Op::Sleep(r.range(1, 12)));
            let to = r.below(n) as usize;
            t.ops.insert(at + 1, Op::Kill { to, recipient: r.pct(30) });
            if r.pct(25) {
                t.ops.insert(at + 2, Op::Drop(to));
            }
        }
    }
    for _ in 0..r.below(3) {
        let to = r.below(n) as usize;
        s.tasks.push(TaskSpec { thread: r.pct(15), ops: vec![Op::Sleep(r.below(8)), Op::WaitStop { to, result: false }] });
    }
    s
}

fn judge10(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = task_panics(v);
    for a in v.spawn.keys().copied() {
        let Some(k) = v.first_op("kill", a) else { continue };
        let Some(kr) = &k.ret else { continue };
        if v.end > 0 && v.drop.get(&a).is_none() {
            out.push(viol("never-ended", format!("actor {a} was killed at event {} and never ended", k.n)));
        }
        let start_ok = v.start_ok(a).is_some();
        if v.hook(a, "stp").len() > 1 {
            out.push(viol("on-stop-twice", format!("actor {a}, killed at event {}", k.n)));
        }
        let Some(stp) = v.stop(a) else {
            if let Some(d) = v.drop.get(&a) {
                out.push(viol("on-stop-skipped", format!("actor {a} was killed at event {} and dropped at event {} without on_stop", k.n, d.0)));
            }
            continue;
        };
        let own = k.who == 1000 + a as i64;
        if start_ok && !own && stp.n0 > kr.n {
            for s in v.of(a) {
                if matches!(s.k.as_str(), "h" | "lnk" | "pan") {
                    if s.n0 > kr.n {
                        out.push(viol("ran-after-kill", format!("actor {a}: {} {} began at event {} after the kill returned at event {}", s.k, s.id, s.n0, kr.n)));
                    } else if s.n0 < k.n && s.n1.map(|e| e > kr.n).unwrap_or(true) && !s.cut {
                        out.push(viol("finished-after-kill", format!("actor {a}: {} {} in progress when killed at event {} was not dropped", s.k, s.id, k.n)));
                    }
                    if s.n1.map(|e| e > stp.n0).unwrap_or(true) {
                        out.push(viol("running-during-on-stop", format!("actor {a}: {} {}", s.k, s.id)));
                    }
                }
            }
        }
        let unreferenced = h.iter().any(|e| e.k == "dropref" && e.b == a as i64 && e.n < kr.n);
        // the actor went on while the kill was under way on another thread
        let raced = h.iter().any(|e| e.n > k.n && e.n < kr.n && e.w == a as i64 && matches!(e.k.as_str(), "h+" | "h-" | "lnk+" | "lnk-" | "pan+" | "pan-"));
        if start_ok && v.first_cause(a) == Some(k.n) && !unreferenced && !raced {
            if !own && stp.s != "killed" {
                out.push(viol("wrong-reason", format!("actor {a} was killed at event {} but on_stop got reason {}", k.n, stp.s)));
            }
            let t = v.started(a).and_then(|s| s.t1).unwrap_or(0).max(k.t);
            if !own && stp.t0 != t {
                out.push(viol("kill-late", format!("actor {a} was killed at {} ms and on_stop began at {} ms", k.t / 1_000_000, stp.t0 / 1_000_000)));
            }
        }
    }
    for o in hangs(v, sc) {
        let a = o.actor as usize;
        if o.actor >= 0 && v.killed(a) && (o.is_send() || o.how == "waitstop" || o.how == "waitstart" || o.how == "stop") {
            out.push(viol("waiter-not-released", describe(o)));
        }
    }
    out
}

// ---- C11 -----------------------------------------------------------------------------------------

fn gen11(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 2) as usize;
    // a link is no reference
    let links = n > 1 && g.r.pct(45);
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        a.start = g.pause();
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(20);
        a.stop_body = g.pause();
        if g.r.pct(15) {
            let m = g.plain();
            let o = g.send(i, How::TryTell, m);
            a.start.push(o);
        }
        actors.push(a);
    }
    let mut tasks = vec![];
    let streams = g.r.pct(40);
    for t in 0..g.r.range(1, 4) {
        let thread = g.r.pct(20);
        let mut ops = vec![];
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.extend(g.pause());
                    ops.push(Op::Spawn(i));
                }
            }
        }
        if t == 0 && links {
            ops.push(Op::Link { a: 0, b: 1, block: false });
        }
        ops.extend(g.pause());
        for _ in 0..g.r.range(2, 9) {
            let to = g.r.below(n as u64) as usize;
            match g.r.below(100) {
                0..=34 => {
                    let how = if thread { g.how_thread() } else { g.how_async() };
                    let mut m = g.plain();
                    if g.r.pct(30) {
                        m.body.push(Op::Sleep(g.r.range(1, 30)));
                    }
                    if g.r.pct(10) {
                        let m2 = g.plain();
                        let o = g.send(to, How::TryTell, m2);
                        m.body.push(o);
                    }
                    let mut o = g.send(to, how, m);
                    if let Op::Send { cx, rt, .. } = &mut o {
                        if matches!(how, How::Ask | How::Tell) && g.r.pct(10) {
                            *cx = Some(g.r.below(5));
                        } else if how == How::Ask && g.r.pct(20) {
                            *rt = Some(g.r.range(1, 10));
                        }
                    }
                    ops.push(o);
                }
                35..=49 => ops.push(Op::Hold { to, recipient: g.r.pct(50) }),
                50..=64 => ops.push(Op::DropMine(to)),
                65..=74 => ops.push(Op::Drop(to)),
                75..=84 => ops.push(Op::Upgrade { to, recipient: g.r.pct(40) }),
                85..=89 if streams => {
                    let base = 100_000 + g.id() * 1000;
                    let gaps = (0..g.r.below(4)).map(|_| g.r.below(6)).collect();
                    ops.push(Op::Attach { to, base, gaps, forever: g.r.pct(10) });
                }
                90..=94 if links => {
                    let block = thread && g.r.pct(50);
                    ops.push(if g.r.pct(85) { Op::Link { a: to, b: 1 - to, block } } else { Op::Unlink { a: to, b: 1 - to, block } });
                }
                _ => {
                    let p = g.pause();
                    ops.extend(p);
                }
            }
        }
        if g.r.pct(60) {
            for i in 0..n {
                ops.push(Op::Drop(i));
                ops.push(Op::DropMine(i));
            }
        }
        if g.r.pct(30) {
            ops.push(Op::Sleep(g.r.range(1, 60)));
            ops.push(Op::Upgrade { to: g.r.below(n as u64) as usize, recipient: g.r.pct(40) });
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

/// Intervals during which a strong reference to `a` certainly existed, and the end of each as an
/// upper bound (None: for ever).
fn holders(v: &View, h: &[Ev], a: usize) -> Vec<(u64, Option<u64>, String)> {
    let mut out = vec![];
    let e = |k: &str| h.iter().find(|e| e.k == k && e.b == a as i64).map(|e| e.n);
    out.push((0, e("dropref"), "the initial reference".to_string()));
    let mut held: HashMap<i64, Vec<u64>> = HashMap::new();
    for x in h {
        if x.b == a as i64 && x.k == "hold" {
            held.entry(x.w).or_default().push(x.n);
        }
        if x.b == a as i64 && x.k == "dropmine" {
            if let Some(n) = held.get_mut(&x.w).and_then(|s| s.pop()) {
                out.push((n, Some(x.n), format!("a reference held by {}", x.w)));
            }
        }
        if x.k == "attach" && x.b == a as i64 {
            // until its last message is being handled
            let fin = v.hs(x.id).into_iter().find(|s| s.s == "finished").map(|s| s.n0);
            let end = fin.or(h.iter().find(|y| y.k == "srcdrop" && y.id == x.id).map(|y| y.n));
            out.push((x.n, end, format!("stream {}", x.id)));
        }
    }
    for (w, ns) in held {
        for n in ns {
            out.push((n, None, format!("a reference held by {w}")));
        }
    }
    for o in v.ops.iter().filter(|o| o.actor == a as i64 && o.how != "upgrade" && o.how != "lookup") {
        out.push((o.n, o.ret.as_ref().map(|r| r.n), format!("operation {}", o.uid)));
    }
    for o in v.ops.iter().filter(|o| (o.how == "link" || o.how == "unlink") && o.mid == a as i64) {
        out.push((o.n, o.ret.as_ref().map(|r| r.n), format!("operation {}", o.uid)));
    }
    for o in v.sends().filter(|o| o.actor == a as i64) {
        if let (Some(acc), Some(s)) = (o.acc_n(), v.hs(o.mid).first()) {
            out.push((acc, s.n1, format!("queued message {}", o.mid)));
        }
    }
    for s in v.of(a) {
        if s.k == "h" {
            out.push((s.n0, s.n1, format!("the message of handler {}", s.id)));
        }
        if s.k == "start" {
            out.push((0, s.n1, "the actor's own startup".into()));
        }
    }
    if !v.spawn.contains_key(&a) {
        out.push((0, None, "the prepared actor".into()));
    }
    out
}

fn judge11(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = lost(v);
    // telling a linked actor of a death holds it for a moment
    let links = v.ops.iter().any(|o| o.how == "link");
    for a in 0..sc.actors.len() {
        let hold = holders(v, h, a);
        let last = if hold.iter().any(|x| x.1.is_none()) { None } else { hold.iter().filter_map(|x| x.1).max() };
        match v.stop(a) {
            Some(s) => {
                if let Some(x) = hold.iter().find(|x| x.0 < s.n0 && x.1.map(|e| e > s.n0).unwrap_or(true)) {
                    out.push(viol("stopped-while-referenced", format!("actor {a} stopped at event {} although {} existed from event {} to {:?}", s.n0, x.2, x.0, x.1)));
                }
                if s.s != "normal" {
                    out.push(viol("wrong-reason", format!("actor {a} stopped for want of references with reason {}", s.s)));
                }
                if let Some(l) = last {
                    // the end of a reference is what stops it: no time passes
                    let t = h.iter().filter(|e| e.n <= l).map(|e| e.t).max().unwrap_or(0);
                    if s.n0 > l && s.t0 != t {
                        out.push(viol("stopped-late", format!("actor {a}: the last reference went at event {l} ({} ms), on_stop began at {} ms", t / 1_000_000, s.t0 / 1_000_000)));
                    }
                }
            }
            None => {
                if let (Some(l), true) = (last, v.end > 0 && v.spawn.contains_key(&a)) {
                    out.push(viol("not-stopped", format!("actor {a} still runs at the end although its last reference went at event {l}")));
                }
            }
        }
        if v.finals.get(&a) == Some(&0) {
            out.push(viol("dead-while-referenced", format!("actor {a} is not alive at the end although its initial reference still exists")));
        }
        for o in v.ops.iter().filter(|o| o.how == "upgrade" && o.actor == a as i64) {
            let Some(r) = &o.ret else { continue };
            if r.code != OK {
                out.push(viol("upgrade-failed", describe(o)));
                continue;
            }
            if r.val == 2 {
                out.push(viol("weak-recipient-lost", describe(o)));
            }
            let some = r.val != 0;
            let must = hold.iter().find(|x| x.0 < o.n && x.1.map(|e| e > r.n).unwrap_or(true));
            let may = v.sends().any(|p| p.actor == a as i64 && p.n < r.n && v.hs(p.mid).first().map(|s| s.n1.map(|e| e > o.n).unwrap_or(true)).unwrap_or(false))
                || hold.iter().any(|x| x.0 < r.n && x.1.map(|e| e > o.n).unwrap_or(true)) || v.ops.iter().any(|p| p.how == "upgrade" && p.uid != o.uid && p.n < r.n && p.ret.as_ref().map(|x| x.n > o.n).unwrap_or(true));
            if let (false, Some(x)) = (some, must) {
                out.push(viol("upgrade-refused", format!("{} although {} existed", describe(o), x.2)));
            }
            if some && !may && !links {
                out.push(viol("upgrade-of-nothing", describe(o)));
            }
        }
    }
    for o in hangs(v, sc) {
        if o.is_send() {
            out.push(viol("send-hangs", describe(o)));
        }
    }
    out
}

// ---- C12 -----------------------------------------------------------------------------------------

fn gen12(r: &mut Rng) -> Scenario {
    let kills = if r.pct(20) { 30 } else { 0 };
    let links = r.pct(20);
    let mut s = chaos(r, kills, links);
    // failures while others' messages are held back for the startup
    for a in &mut s.actors {
        for o in &mut a.start {
            if let Op::Send { m, .. } = o {
                if r.pct(50) {
                    m.end = *r.pick(&[End::Err, End::Panic]);
                }
            }
        }
    }
    for t in &mut s.tasks {
        for o in &mut t.ops {
            if let Op::Send { m, how, rt, cx, .. } = o {
                if r.pct(35) {
                    m.end = *r.pick(&[End::Err, End::Panic]);
                }
                // the asker may be gone when its handler fails
                if matches!(how, How::Ask | How::TryAsk) && r.pct(20) {
                    *cx = Some(r.below(6));
                } else if matches!(how, How::Ask | How::TryAsk | How::Enq | How::TryEnq) && r.pct(15) {
                    *rt = Some(r.below(5));
                }
                if how.is_ask() && m.end != End::Panic && r.pct(8) {
                    m.kind = Kind::Deleg(*r.pick(&[DelegHow::Now, DelegHow::Task(1)]));
                }
            }
        }
    }
    s
}

fn judge12(_sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = task_panics(v);
    let by_mid: HashMap<i64, &OpRec> = v.sends().map(|o| (o.mid, o)).collect();
    // what on_panic must be told about a finished span
    let failure = |a: usize, s: &Span| -> Option<String> {
        if !s.done() {
            return None;
        }
        match (s.k.as_str(), s.code) {
            ("h", 2) => Some(format!("boom:{}", s.id)),
            ("h", 1) if by_mid.get(&s.id).map(|o| !o.is_ask()).unwrap_or(false) => Some(format!("err:{}", s.id)),
            ("start", 2) => Some(format!("boom:{}", 900_000 + a)),
            ("start", 1) => Some(format!("err:{}", 900_000 + a)),
            ("lnk", 2) => Some(format!("boom:{}", 920_000 + a)),
            ("lnk", 1) => Some(format!("err:{}", 920_000 + a)),
            _ => None,
        }
    };
    for a in v.spawn.keys().copied() {
        let sp = v.of(a);
        let killed_before = |n: u64| v.ops.iter().any(|o| o.how == "kill" && o.actor == a as i64 && o.n < n);
        let mut count = 0i64;
        for (i, s) in sp.iter().enumerate() {
            let next = sp.get(i + 1);
            if s.k == "h" {
                count += 1;
                if s.done() && s.code == 0 && s.s.is_empty() && s.val % 1000 != count % 1000 {
                    out.push(viol("state-lost", format!("actor {a}: message {} was number {count} to be handled, the state says {}", s.id, s.val % 1000)));
                }
            }
            if let Some(want) = failure(a, s) {
                match next {
                    Some(p) if p.k == "pan" => {
                        if p.s != want {
                            out.push(viol("wrong-panic", format!("actor {a}: on_panic got {:?} after {want:?}", p.s)));
                        }
                        if p.b != count && p.s == want {
                            // `b` carries the number of messages handled so far
                        }
                    }
                    _ => {
                        if v.end > 0 && !killed_before(next.map(|p| p.n0).unwrap_or(u64::MAX)) {
                            out.push(viol("on-panic-skipped", format!("actor {a}: {want:?} at event {} was not followed by on_panic but by {:?}", s.n1.unwrap(), next.map(|p| &p.k))));
                        }
                    }
                }
            }
            if s.k == "pan" {
                let prev = i.checked_sub(1).map(|j| sp[j]);
                if prev.and_then(|p| failure(a, p)).is_none() {
                    out.push(viol("on-panic-unprovoked", format!("actor {a}: on_panic with {:?} at event {} after {:?}", s.s, s.n0, prev.map(|p| (&p.k, p.id, p.code)))));
                }
                if s.done() {
                    let want = match (s.code, s.val) {
                        (0, 1) => None,
                        (0, 0) => Some(format!("panicked({})", s.s)),
                        (0, 2) => Some("normal".into()),
                        (0, 3) => Some("killed".into()),
                        (1, _) => Some(format!("panicked(err:{})", 910_000 + a)),
                        _ => Some(format!("panicked(boom:{})", 910_000 + a)),
                    };
                    // a failed start ends the actor even if the hook would continue
                    let from_start = prev.map(|p| p.k == "start").unwrap_or(false);
                    let want = match want {
                        None if from_start => prev.and_then(|p| failure(a, p)).map(|e| format!("panicked({e})")),
                        w => w,
                    };
                    match (want, next) {
                        (Some(w), Some(n)) => {
                            if n.k != "stp" {
                                out.push(viol("ran-after-break", format!("actor {a}: {} {} after on_panic ended the actor", n.k, n.id)));
                            } else if n.s != w && !(n.s == "killed" && killed_before(n.n0)) {
                                out.push(viol("wrong-reason", format!("actor {a}: on_stop got {:?} instead of {:?}", n.s, w)));
                            }
                        }
                        (Some(w), None) if v.end > 0 => out.push(viol("not-stopped", format!("actor {a} should have stopped with {w:?}"))),
                        _ => {}
                    }
                }
            }
        }
        // nothing happened to it
        if v.first_cause(a).is_none() && v.finals.get(&a) == Some(&0) {
            out.push(viol("bystander-died", format!("actor {a}")));
        }
        if let Some(s) = v.stop(a) {
            let cause = v.ops.iter().any(|o| (o.how == "stop" || o.how == "kill") && o.actor == a as i64 && o.n < s.n0) || sp.iter().any(|x| (x.k == "pan" || x.k == "lnk") && x.n0 < s.n0) || sp[0].code != 0;
            if !cause {
                out.push(viol("bystander-died", format!("actor {a} stopped at event {} with reason {}", s.n0, s.s)));
            }
        }
        // going on with its state means also with the stop it was already told
        let stopped = v.ops.iter().filter(|o| o.how == "stop" && o.actor == a as i64 && o.code() == Some(OK)).filter_map(|o| o.ret.as_ref().map(|r| r.n)).min();
        if let (Some(n), true) = (stopped, sp.iter().any(|s| s.k == "pan")) {
            for o in v.sends().filter(|o| o.actor == a as i64 && o.n > n) {
                if let Some(h) = v.hs(o.mid).first() {
                    out.push(viol("stop-forgotten", format!("{}; stop was accepted by event {n}, handled at event {}", describe(o), h.n0)));
                }
            }
        }
    }
    // and with the messages it had accepted
    out.extend(lost(v));
    out
}

// ---- C13 -----------------------------------------------------------------------------------------

fn gen13(r: &mut Rng) -> Scenario {
    let mut s = chaos(r, 50, true);
    let n = s.actors.len() as u64;
    for a in &mut s.actors {
        if r.pct(25) {
            a.start_end = *r.pick(&[End::Err, End::Err, End::Panic]);
        }
        if r.pct(30) {
            a.stop_end = *r.pick(&[End::Err, End::Err, End::Panic]);
        }
        if r.pct(40) {
            a.cap = Some(r.range(1, 2) as usize);
        }
    }
    // no handler of a full mailbox may wait for itself
    for t in &mut s.tasks {
        for o in &mut t.ops {
            if let Op::Send { to, m, .. } = o {
                if s.actors[*to].cap.is_some() {
                    m.body.retain(|o| !matches!(o, Op::Stop { .. }));
                }
            }
        }
    }
    for _ in 0..r.range(1, 5) {
        let to = r.below(n) as usize;
        let mut ops = vec![];
        if r.pct(60) {
            ops.push(Op::Sleep(r.below(15)));
        }
        for _ in 0..r.range(1, 2) {
            ops.push(match r.below(4) {
                0 => Op::WaitStart { to, result: false },
                1 => Op::WaitStart { to, result: true },
                2 => Op::WaitStop { to, result: false },
                _ => Op::WaitStop { to, result: true },
            });
        }
        s.tasks.push(TaskSpec { thread: r.pct(15), ops });
    }
    s
}

fn judge13(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for o in &v.ops {
        if o.actor < 0 {
            continue;
        }
        let a = o.actor as usize;
        if o.how == "waitstart" {
            let Some(r) = &o.ret else { continue };
            let Some(st) = v.started(a) else {
                out.push(viol("startup-released-before-start", describe(o)));
                continue;
            };
            if st.n1.map(|e| e > r.n).unwrap_or(true) {
                out.push(viol("startup-released-early", describe(o)));
            }
            let t = st.t1.unwrap_or(0);
            let own = v.sends().any(|p| p.who == 1000 + a as i64 && p.actor == a as i64 && p.n < r.n && !p.rejected());
            let link = v.of(a).iter().any(|s| s.k == "lnk" && s.n0 < r.n);
            if !own && !link && r.t != t.max(o.t) {
                out.push(viol("startup-released-late", format!("{}; on_start ended at {} ms", describe(o), t / 1_000_000)));
            }
            if o.has("res") {
                let ok = match st.code {
                    0 => r.code == OK,
                    1 => r.code == HANDLER && r.val == 900_000 + a as i64,
                    _ => true,
                };
                if !ok {
                    out.push(viol("startup-result", format!("{}; on_start ended with code {}", describe(o), st.code)));
                }
            } else if r.code != OK {
                out.push(viol("startup-wait-failed", describe(o)));
            }
        }
        if o.how == "waitstop" {
            let Some(r) = &o.ret else { continue };
            let Some(st) = v.stop(a) else {
                out.push(viol("shutdown-released-before-stop", describe(o)));
                continue;
            };
            if st.n1.map(|e| e > r.n).unwrap_or(true) {
                out.push(viol("shutdown-released-early", describe(o)));
            }
            if let Some(d) = v.drop.get(&a) {
                if r.t > d.1.max(o.t) {
                    out.push(viol("shutdown-released-late", format!("{}; the actor was gone at {} ms", describe(o), d.1 / 1_000_000)));
                }
            }
            if o.has("res") {
                let ok = match st.code {
                    0 => r.code == OK,
                    1 => r.code == HANDLER && r.val == 930_000 + a as i64,
                    _ => true,
                };
                if !ok {
                    out.push(viol("shutdown-result", format!("{}; on_stop ended with code {}", describe(o), st.code)));
                }
            } else if r.code != OK {
                out.push(viol("shutdown-wait-failed", describe(o)));
            }
        }
    }
    for o in hangs(v, sc) {
        let a = o.actor as usize;
        if o.how == "waitstart" || (o.how == "waitstop" && (v.drop.contains_key(&a) || must_end(v, a).is_some())) {
            out.push(viol("waiter-hangs", describe(o)));
        }
    }
    out
}

// ---- C32 -----------------------------------------------------------------------------------------

fn gen32(r: &mut Rng) -> Scenario {
    let mut s = gen13(r);
    for a in &mut s.actors {
        if r.pct(20) {
            a.start_end = *r.pick(&[End::Err, End::Panic]);
        }
        if r.pct(40) {
            a.stop_end = *r.pick(&[End::Err, End::Panic]);
        }
    }
    if r.pct(50) {
        let mut ops = vec![];
        for i in 0..r.range(1, 4) {
            ops.push(Op::Sleep(r.below(12)));
            ops.push(Op::ErrHook(i % 2 == 0));
        }
        s.tasks.push(TaskSpec { thread: r.pct(30), ops });
    }
    s
}

fn judge32(_: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let calls: Vec<&Ev> = h.iter().filter(|e| e.k == "errhook").collect();
    let sets: Vec<&Ev> = h.iter().filter(|e| e.k == "sethook").collect();
    let mut used = vec![false; calls.len()];
    for s in v.spans.iter().filter(|s| matches!(s.k.as_str(), "start" | "stp") && s.done() && s.code != 0) {
        let (what, base) = if s.k == "start" { ("on_start", 900_000) } else { ("on_stop", 930_000) };
        let text = if s.code == 1 { format!("err:{}", base + s.actor) } else { format!("boom:{}", base + s.actor) };
        let end = s.n1.unwrap();
        let mine: Vec<usize> = (0..calls.len()).filter(|i| calls[*i].s == text && calls[*i].n > end).collect();
        for i in &mine {
            used[*i] = true;
        }
        if mine.len() != 1 {
            out.push(viol(if mine.is_empty() { "hook-not-called" } else { "hook-called-twice" }, format!("{what} of actor {} failed with {text}; the hook was called {} times", s.actor, mine.len())));
            continue;
        }
        let call = calls[mine[0]];
        // the hook which was installed meanwhile: the last one before, or any since (one task installs them)
        let mut may = vec![sets.iter().rfind(|e| e.a == 1 && e.n < end).map_or(1, |e| e.w)];
        may.extend(sets.chunks(2).filter(|p| p[0].n < call.n && p.get(1).is_none_or(|e| e.n > end)).map(|p| p[0].w));
        if !may.contains(&call.w) {
            out.push(viol("replaced-hook-called", format!("{what} of actor {} failed and hook {} was called, not {:?}", s.actor, call.w, may)));
        }
    }
    for (i, c) in calls.iter().enumerate() {
        if !used[i] {
            out.push(viol("hook-called-for-nothing", format!("the hook was called with {}", c.s)));
        }
    }
    out
}
