//! C01–C06: message delivery.
use super::*;
use crate::gen::G;

pub static LIST: &[P] = &[
    P {
        id: "C01",
        gen: gen01,
        judge: judge01,
        nontrivial: |_, v| v.sends().filter(|o| o.accepted()).count() >= 3 && v.spans.iter().filter(|s| s.k == "h").count() >= 3,
        rule: "at least three sends were accepted and three handlers ran; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C02",
        gen: gen02,
        judge: judge02,
        nontrivial: |_, v| v.spans.len() >= 4,
        rule: "at least four handlers or hooks ran; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C03",
        gen: gen03,
        judge: judge03,
        nontrivial: |_, v| v.ops.iter().filter(|o| o.is_ask() && o.accepted()).count() >= 2,
        rule: "at least two asks were accepted; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C04",
        gen: gen04,
        judge: judge04,
        nontrivial: |_, v| v.sends().any(|o| o.rejected()),
        rule: "at least one send was rejected; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C05",
        gen: gen05,
        judge: judge05,
        nontrivial: |_, v| v.sends().any(|o| o.code() == Some(FULL)) || v.sends().any(|o| o.ret.as_ref().map(|r| r.t > o.t).unwrap_or(false)),
        rule: "at least one send was refused as full or had to wait; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: false,
    },
    P {
        id: "C06",
        gen: gen06,
        judge: judge06,
        nontrivial: |_, v| v.sends().any(|o| matches!(o.code(), Some(TIMEOUT_MSG | TIMEOUT_NONE))),
        rule: "at least one timeout fired; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: false,
    },
];

fn sc(actors: Vec<ActorSpec>, tasks: Vec<TaskSpec>) -> Scenario {
    Scenario { actors, tasks, horizon: 5_000, base: 0 }
}

pub fn fwd_how(g: &mut G, unbounded: bool) -> FwdHow {
    if unbounded && g.r.pct(25) {
        FwdHow::Block
    } else if g.r.pct(40) {
        FwdHow::Try
    } else {
        FwdHow::Async
    }
}

fn gen01(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 3) as usize;
    let actors: Vec<_> = (0..n)
        .map(|_| {
            let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
            a.start = g.pause();
            a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Continue, PanicHook::Continue]);
            a.link_hook = LinkHook::Continue;
            a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(20);
            a
        })
        .collect();
    let nt = g.r.range(1, 4);
    let stop = g.r.pct(40);
    let fail = g.r.pct(20);
    let kill = g.r.pct(5);
    let mut tasks = vec![];
    for t in 0..nt {
        let thread = g.r.pct(20);
        let mut ops = g.pause();
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.push(Op::Spawn(i));
                }
            }
        }
        for _ in 0..g.r.range(2, 9) {
            let to = g.r.below(n as u64) as usize;
            let how = if thread { g.how_thread() } else { g.how_async() };
            let mut m = g.plain();
            // nested sends: forward to later actors, or to itself without waiting
            if g.r.pct(25) {
                let k = g.r.range(1, 3);
                for _ in 0..k {
                    let t2 = g.r.range(to as u64, n as u64 - 1) as usize;
                    let h2 = if t2 == to { *g.r.pick(&[How::TryTell, How::TryEnq, How::TryTell]) } else { g.how_async() };
                    let h2 = if t2 == to && h2 == How::TryEnq { How::TryTell } else { h2 };
                    let m2 = g.plain();
                    let o = g.send(t2, h2, m2);
                    m.body.push(o);
                }
            }
            if to + 1 < n && g.r.pct(15) {
                let t2 = g.r.range(to as u64 + 1, n as u64 - 1) as usize;
                m.kind = Kind::Fwd(t2, fwd_how(&mut g, actors[t2].cap.is_none()));
                // it is run by the other actor, which must not wait for itself
                m.body.retain(|o| !matches!(o, Op::Send { .. }));
            }
            if fail && g.r.pct(15) {
                m.end = *g.r.pick(&[End::Err, End::Panic]);
            }
            let mut o = g.send(to, how, m);
            if let Op::Send { cx, mt, .. } = &mut o {
                if !how.blocking() && g.r.pct(6) {
                    *cx = Some(g.r.below(6));
                } else if matches!(how, How::Tell | How::Ask | How::Enq) && g.r.pct(10) {
                    *mt = Some(g.r.range(0, 10));
                }
            }
            ops.push(o);
            if g.r.pct(25) {
                ops.extend(g.pause());
            }
            if g.r.pct(10) {
                ops.push(Op::Collect);
            }
            if stop && g.r.pct(6) {
                ops.push(Op::Stop { to, recipient: g.r.pct(30) });
            }
            if kill && g.r.pct(10) {
                ops.push(Op::Kill { to, recipient: false });
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

/// earliest event at which a stop request for `a` was made that may have been accepted
pub fn first_stop(v: &View, a: usize) -> Option<u64> {
    v.ops.iter().filter(|o| o.how == "stop" && o.actor == a as i64 && o.code() != Some(NOT_RUNNING)).map(|o| o.n).min()
}

pub fn lost(v: &View) -> Vec<Violation> {
    v.spawn.keys().flat_map(|a| lost_of(v, *a)).collect()
}
pub fn lost_of(v: &View, a: usize) -> Vec<Violation> {
    let mut out = vec![];
    for o in v.sends().chain(&v.fwds).filter(|o| o.actor == a as i64) {
        if !o.accepted() || may_drop_messages(v, a) {
            continue;
        }
        if let Some(s) = first_stop(v, a) {
            if o.acc_n().unwrap() > s {
                continue;
            }
        }
        if v.hs(o.mid).is_empty() {
            out.push(viol("accepted-message-lost", format!("message {} was accepted and never handled: {}", o.mid, describe(o))));
        }
    }
    out
}

fn judge01(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for (m, s) in &v.handled {
        if s.len() > 1 && !msg_kind_is_stream(&v.spans[s[0]]) {
            out.push(viol("handled-twice", format!("message {m} was handled {} times", s.len())));
        }
    }
    // per-sender order
    let sends: Vec<&OpRec> = v.sends().chain(&v.fwds).collect();
    for (i, x) in sends.iter().enumerate() {
        for y in &sends[i + 1..] {
            if x.who != y.who || x.actor != y.actor {
                continue;
            }
            let (a, b) = if x.n < y.n { (x, y) } else { (y, x) };
            let Some(ra) = a.send_ret_n() else { continue };
            if ra > b.n {
                continue;
            }
            let (ha, hb) = (v.hs(a.mid), v.hs(b.mid));
            if let (Some(ha), Some(hb)) = (ha.first(), hb.first()) {
                if ha.n0 > hb.n0 {
                    out.push(viol("order", format!("messages {} then {} of sender {} were handled in the other order by actor {}", a.mid, b.mid, a.who, a.actor)));
                }
            }
        }
    }
    out.extend(lost(v));
    for o in v.sends() {
        if o.code() == Some(PANICKED) {
            out.push(viol("send-panicked", describe(o)));
        }
    }
    for o in hangs(v, sc).into_iter().filter(|o| o.is_send()) {
        out.push(viol("send-hangs", describe(o)));
    }
    out
}

/// General chaos: everything at once.
pub fn chaos(r: &mut Rng, kills: u64, links: bool) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 3) as usize;
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        if links && i > 0 && g.r.pct(20) {
            a.how = SpawnHow::Link(g.r.below(i as u64) as usize);
        }
        a.start = g.pause();
        a.start_end = *g.r.pick(&[End::Ok, End::Ok, End::Ok, End::Ok, End::Ok, End::Ok, End::Ok, End::Err, End::Panic]);
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Continue, PanicHook::Continue, PanicHook::BreakNormal, PanicHook::BreakKilled, PanicHook::Err, PanicHook::Panic]);
        a.link_hook = *g.r.pick(&[LinkHook::Default, LinkHook::Default, LinkHook::Continue, LinkHook::BreakNormal, LinkHook::Err, LinkHook::Panic]);
        a.panic_body = g.pause();
        a.link_body = g.pause();
        a.stop_body = g.pause();
        a.stop_end = *g.r.pick(&[End::Ok, End::Ok, End::Ok, End::Ok, End::Err, End::Panic]);
        if g.r.pct(15) && !matches!(a.how, SpawnHow::Link(_)) {
            a.how = SpawnHow::Prepared;
            a.late = true;
        }
        if g.r.pct(25) {
            let m = g.plain();
            let o = g.send(i, How::TryTell, m);
            a.start.push(o);
        }
        actors.push(a);
    }
    let nt = g.r.range(1, 4);
    let mut tasks = vec![];
    for t in 0..nt {
        let thread = g.r.pct(15);
        let mut ops = g.pause();
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.extend(g.pause());
                    ops.push(Op::Spawn(i));
                }
            }
        }
        for _ in 0..g.r.range(2, 8) {
            let to = g.r.below(n as u64) as usize;
            match g.r.below(100) {
                0..=59 => {
                    let how = if thread { g.how_thread() } else { g.how_async() };
                    let mut m = g.plain();
                    m.end = *g.r.pick(&[End::Ok, End::Ok, End::Ok, End::Ok, End::Err, End::Panic]);
                    if g.r.pct(10) {
                        m.body.insert(0, if g.r.pct(60) { Op::Kill { to, recipient: false } } else { Op::Stop { to, recipient: false } });
                        if actors[to].cap.is_some() {
                            m.body.remove(0);
                        }
                    }
                    let mut o = g.send(to, how, m);
                    if let Op::Send { cx, .. } = &mut o {
                        if !how.blocking() && g.r.pct(8) {
                            *cx = Some(g.r.below(5));
                        }
                    }
                    ops.push(o);
                }
                60..=69 => ops.extend(g.pause()),
                70..=75 => ops.push(Op::Stop { to, recipient: g.r.pct(30) }),
                76..=84 => {
                    if g.r.pct(kills) {
                        ops.push(Op::Kill { to, recipient: g.r.pct(30) })
                    }
                }
                85..=90 => {
                    if links && n > 1 {
                        let b = g.r.below(n as u64) as usize;
                        if b != to {
                            ops.push(if g.r.pct(75) { Op::Link { a: to, b, block: thread && g.r.pct(50) } } else { Op::Unlink { a: to, b, block: thread && g.r.pct(50) } });
                        }
                    }
                }
                91..=93 => ops.push(Op::WaitStart { to, result: false }),
                94..=95 => ops.push(Op::Collect),
                _ => {
                    let base = 100_000 + g.id() * 1000;
                    let gaps = (0..g.r.below(4)).map(|_| g.r.below(4)).collect();
                    ops.push(Op::Attach { to, base, gaps, forever: false });
                }
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

fn gen02(r: &mut Rng) -> Scenario {
    chaos(r, 60, true)
}

pub fn judge02(_sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for a in v.by_actor.keys() {
        let sp = v.of(*a);
        for w in sp.windows(2) {
            match w[0].n1 {
                Some(e) if e < w[1].n0 => {}
                _ => out.push(viol("overlap", format!("actor {a}: {} {} began at event {} while {} {} (event {}) was in progress", w[1].k, w[1].id, w[1].n0, w[0].k, w[0].id, w[0].n0))),
            }
        }
        for s in &sp {
            if s.cut && !v.ops.iter().any(|o| o.how == "kill" && o.actor == *a as i64 && o.n < s.n1.unwrap()) {
                out.push(viol("cut-without-kill", format!("actor {a}: {} {} was dropped unfinished although the actor was not killed", s.k, s.id)));
            }
            if s.cut && (s.k == "start" || s.k == "stp") {
                out.push(viol("hook-cut", format!("actor {a}: {} was dropped unfinished", s.k)));
            }
        }
        if let Some(d) = v.drop.get(a) {
            for s in &sp {
                if s.n1.map(|n| n > d.0).unwrap_or(true) {
                    out.push(viol("state-dropped-while-running", format!("actor {a}: state dropped at event {} during {} {}", d.0, s.k, s.id)));
                }
            }
        }
    }
    out
}

fn gen03(r: &mut Rng) -> Scenario {
    let mut s = chaos(r, 40, false);
    // mostly asks, many outstanding, some delegated
    let g = G { r, next: 5000 };
    for t in &mut s.tasks {
        for o in &mut t.ops {
            if let Op::Send { how, recipient, rt, m, .. } = o {
                if !how.is_ask() && g.r.pct(80) {
                    *how = if how.blocking() { How::BlockAsk } else { *g.r.pick(&[How::Ask, How::Enq, How::TryAsk, How::TryEnq]) };
                    *recipient = false;
                }
                if how.is_ask() && m.end != End::Panic && g.r.pct(20) {
                    m.kind = Kind::Deleg(*g.r.pick(&[DelegHow::Now, DelegHow::Task(0), DelegHow::Task(4), DelegHow::Drop]));
                }
                if how.is_ask() && !how.blocking() && g.r.pct(15) {
                    *rt = Some(g.r.range(1, 12));
                }
            }
        }
    }
    s
}

/// What the reply to message `mid` should be, if one was produced: (event, code, value)
fn produced(v: &View, o: &OpRec) -> Vec<(u64, i64, i64)> {
    let mut out = vec![];
    for s in v.hs(o.mid) {
        if s.done() && s.code == 0 {
            out.push((s.n1.unwrap(), OK, s.val));
        }
        if s.done() && s.code == 1 {
            out.push((s.n1.unwrap(), HANDLER, s.val));
        }
    }
    for d in v.dreply.get(&o.mid).into_iter().flatten() {
        out.push((d.0, if d.2 == 0 { OK } else { HANDLER }, d.3));
    }
    out
}

pub fn judge_asks(sc: &Scenario, v: &View) -> Vec<Violation> {
    let mut out = vec![];
    for o in v.ops.iter().filter(|o| o.is_ask()) {
        if let Some(r) = &o.ret {
            let p = produced(v, o);
            match r.code {
                OK | HANDLER => {
                    if !p.iter().any(|x| x.0 < r.n && x.1 == r.code && x.2 == r.val) {
                        out.push(viol("wrong-reply", format!("{}; its handler produced {:?}", describe(o), p)));
                    }
                }
                STOPPED | TIMEOUT_NONE => {
                    if r.code == TIMEOUT_NONE && o.tag("rt").is_none() {
                        out.push(viol("timeout-unasked", describe(o)));
                    }
                    if r.code == STOPPED && p.iter().any(|x| x.0 < r.n) {
                        out.push(viol("reply-lost", format!("{}; its handler had produced {:?}", describe(o), p)));
                    }
                    if r.code == STOPPED {
                        // the reply can be gone only if the handler failed, was dropped, or never ran
                        let hs = v.hs(o.mid);
                        let a = o.actor as usize;
                        let excused = v.ddrop.contains_key(&o.mid)
                            || hs.iter().any(|s| s.cut || s.code == 2 || s.code == 3 || s.code == 4)
                            || (hs.is_empty() && v.first_cause(a).map(|c| c < r.n).unwrap_or(false))
                            || v.stop(a).map(|s| s.n0 < r.n).unwrap_or(false);
                        if !excused {
                            out.push(viol("reply-dropped", describe(o)));
                        }
                    }
                }
                PANICKED => out.push(viol("ask-panicked", describe(o))),
                _ => {}
            }
        }
    }
    for o in hangs(v, sc).into_iter().filter(|o| o.is_ask()) {
        // a stashed reply may legitimately be held by a living actor
        let held = v.hs(o.mid).iter().any(|s| s.done() && s.code == 3) && !v.dreply.contains_key(&o.mid) && !v.ddrop.contains_key(&o.mid) && v.gone(o.actor as usize).is_none();
        if !held {
            out.push(viol("ask-hangs", describe(o)));
        }
    }
    out
}

fn judge03(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    judge_asks(sc, v)
}

fn gen04(r: &mut Rng) -> Scenario {
    let mut s = chaos(r, 50, false);
    let mut g = G { r, next: 5000 };
    for a in &mut s.actors {
        if g.r.pct(70) {
            a.cap = Some(g.r.range(1, 2) as usize);
        }
    }
    let caps: Vec<_> = s.actors.iter().map(|a| a.cap).collect();
    for t in &mut s.tasks {
        for o in &mut t.ops {
            if let Op::Send { to, how, mt, rt, m, .. } = o {
                if how.blocking() {
                    continue;
                }
                if matches!(how, How::Tell | How::Ask | How::Enq) && g.r.pct(40) {
                    *mt = Some(g.r.range(0, 8));
                }
                if how.is_ask() && g.r.pct(20) {
                    *rt = Some(g.r.range(1, 12));
                }
                if g.r.pct(10) {
                    m.kind = Kind::Deleg(DelegHow::Now);
                }
                if caps[*to].is_some() && !m.body.is_empty() && matches!(m.body[0], Op::Stop { .. }) {
                    m.body.clear();
                }
            }
        }
        // after everything: sends to whatever is dead by then
        if g.r.pct(50) {
            t.ops.push(Op::Sleep(100));
            for _ in 0..g.r.range(1, 3) {
                let to = g.r.below(caps.len() as u64) as usize;
                let how = if t.thread { g.how_thread() } else { g.how_async() };
                let m = g.plain();
                let o = g.send(to, how, m);
                t.ops.push(o);
            }
        }
    }
    s
}

fn judge04(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for o in v.sends() {
        let Some(r) = &o.ret else { continue };
        let enq = o.how.ends_with("Enq");
        if r.code == PANICKED {
            out.push(viol("send-panicked", describe(o)));
        }
        // only a reply may time out without the message coming back
        if r.code == TIMEOUT_NONE && (!o.is_ask() || o.tag("rt").is_none()) {
            out.push(viol("message-not-returned", describe(o)));
        }
        if !o.rejected() {
            // an accepted message is not also handed back
            if v.mdrop.get(&o.mid).map(|d| d.len() > 1).unwrap_or(false) {
                out.push(viol("message-duplicated", describe(o)));
            }
            continue;
        }
        if !enq && r.val != o.mid {
            out.push(viol("wrong-message-returned", describe(o)));
        }
        if !v.hs(o.mid).is_empty() {
            out.push(viol("failed-send-handled", describe(o)));
        }
        let drops = v.mdrop.get(&o.mid).map(|d| d.len()).unwrap_or(0);
        if drops != 1 {
            out.push(viol("message-duplicated", format!("{} destroyed {} times", describe(o), drops)));
        }
        if r.code == NOT_RUNNING {
            let a = o.actor as usize;
            let ok = v.first_cause(a).map(|c| c < r.n).unwrap_or(false) || !v.spawn.contains_key(&a);
            if !ok {
                out.push(viol("not-running-while-running", describe(o)));
            }
        }
        if r.code == FULL && sc.actors[o.actor as usize].cap.is_none() {
            out.push(viol("full-unbounded", describe(o)));
        }
        if r.code == TIMEOUT_MSG && o.tag("mt").is_none() {
            out.push(viol("timeout-unasked", describe(o)));
        }
    }
    out
}

fn gen05(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let cap = *g.r.pick(&[Some(1), Some(1), Some(2), Some(3), Some(4), None]);
    let mut a = ActorSpec { cap, how: g.spawn_how(true), ..Default::default() };
    a.start = g.pause();
    let nt = g.r.range(2, 5);
    let asks = g.r.pct(40);
    let mut tasks = vec![];
    for _ in 0..nt {
        let thread = g.r.pct(20);
        let mut ops = vec![Op::WaitStart { to: 0, result: false }];
        ops.extend(g.pause());
        for _ in 0..g.r.range(2, 8) {
            let how = if thread {
                *g.r.pick(&[How::BlockTell, How::BlockTell, How::TryTell, How::BlockEnq])
            } else if asks {
                *g.r.pick(&[How::Tell, How::TryTell, How::TryTell, How::Enq, How::TryEnq, How::Ask, How::TryAsk, How::TryAsk])
            } else {
                *g.r.pick(&[How::Tell, How::TryTell, How::TryTell, How::Enq, How::TryEnq])
            };
            let mut m = g.plain();
            if g.r.pct(30) {
                m.body = vec![Op::Sleep(g.r.range(1, 30))];
            }
            let mut o = g.send(0, how, m);
            if let Op::Send { cx, mt, .. } = &mut o {
                if matches!(how, How::Tell | How::Enq) {
                    if g.r.pct(10) {
                        *cx = Some(g.r.below(6));
                    } else if g.r.pct(15) {
                        *mt = Some(g.r.range(1, 20));
                    }
                }
                if how == How::Enq {
                    *cx = None;
                }
            }
            ops.push(o);
            if g.r.pct(25) {
                ops.extend(g.pause());
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(vec![a], tasks)
}

/// Bounds on the number of messages in the mailbox at event `n`: (certainly, possibly).
fn occupancy(v: &View, n: u64) -> (usize, usize) {
    let (mut lo, mut hi) = (0, 0);
    for o in v.sends() {
        if o.n > n {
            continue;
        }
        let started = v.hs(o.mid).first().map(|s| s.n0 <= n).unwrap_or(false);
        if started {
            continue;
        }
        // the call has returned by n
        let back = o.send_ret_n().map(|x| x <= n).unwrap_or(false);
        match (o.accepted(), o.rejected(), back) {
            (true, _, true) => {
                lo += 1;
                hi += 1;
            }
            // timed out: it may have held a place just before it gave up
            (_, true, false) if o.code() == Some(TIMEOUT_MSG) => hi += 1,
            (_, true, _) => {}
            // cancelled: its message may have been accepted first
            (_, _, true) => {
                if !v.hs(o.mid).is_empty() {
                    hi += 1;
                }
            }
            (_, _, false) => hi += 1,
        }
    }
    (lo, hi)
}

fn judge05(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    if v.started(0).map(|s| s.code != 0).unwrap_or(true) {
        return out;
    }
    for o in hangs(v, sc) {
        if o.is_send() {
            out.push(viol("send-hangs", describe(o)));
        }
    }
    let Some(cap) = sc.actors[0].cap else {
        for o in v.sends() {
            if matches!(o.code(), Some(FULL | TIMEOUT_MSG)) {
                out.push(viol("unbounded-refused", describe(o)));
            }
            if !o.how.contains("Ask") {
                if let (Some(n), Some(r)) = (o.send_ret_n(), &o.ret) {
                    let t = o.enq.map(|e| e.1).unwrap_or(r.t);
                    if t > o.t {
                        out.push(viol("unbounded-waited", format!("{} (returned at event {n})", describe(o))));
                    }
                }
            }
        }
        return out;
    };
    for o in v.sends() {
        if let Some(n) = o.acc_n() {
            let (lo, _) = occupancy(v, n);
            if lo > cap {
                out.push(viol("over-capacity", format!("{lo} messages in a mailbox of capacity {cap} after {}", describe(o))));
            }
        }
        // (the signal that startup finished takes a place too)
        let up = v.ops.iter().any(|w| w.how == "waitstart" && w.ret.as_ref().map(|r| r.n < o.n).unwrap_or(false));
        if o.code() == Some(FULL) && up {
            let n = o.ret.as_ref().unwrap().n;
            let (_, hi) = occupancy(v, n);
            if hi < cap {
                out.push(viol("full-with-room", format!("at most {hi} of {cap} places were taken: {}", describe(o))));
            }
        }
    }
    // a waiting send when time moves on means the mailbox is full
    for w in h.windows(2) {
        if w[1].t <= w[0].t {
            continue;
        }
        let n = w[0].n;
        // an immediate request which has not returned yet waits for its reply, not for a place
        let (lo, _) = occupancy(v, n);
        let tries = v.sends().filter(|o| o.how == "TryAsk" && o.n <= n && o.send_ret_n().map(|x| x > n).unwrap_or(true) && v.hs(o.mid).first().map(|s| s.n0 > n).unwrap_or(true)).count();
        if tries > 0 && lo + tries > cap {
            out.push(viol("immediate-waits", format!("time moved on at event {n} with {lo} of {cap} places taken while {tries} immediate requests had neither been refused nor handled")));
            break;
        }
        let waiting: Vec<_> = v.sends().filter(|o| !o.how.contains("Ask") && o.n <= n && o.send_ret_n().map(|x| x > n).unwrap_or(true)).collect();
        if waiting.is_empty() {
            continue;
        }
        let (lo, _) = occupancy(v, n);
        let asks = v.sends().filter(|o| o.how.contains("Ask") && o.n <= n && o.send_ret_n().map(|x| x > n).unwrap_or(true) && v.hs(o.mid).first().map(|s| s.n0 > n).unwrap_or(true)).count();
        if lo + asks < cap {
            out.push(viol("waits-with-room", format!("time moved on at event {n} with at most {} of {cap} places taken while {} waited", lo + asks, describe(waiting[0]))));
            break;
        }
    }
    out
}

fn gen06(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let cap = *g.r.pick(&[Some(1), Some(1), Some(2), None]);
    let mut a = ActorSpec { cap, how: g.spawn_how(true), ..Default::default() };
    a.start = vec![];
    let nt = g.r.range(2, 5);
    let mut tasks = vec![];
    for _ in 0..nt {
        let mut ops = vec![Op::WaitStart { to: 0, result: false }];
        ops.extend(g.pause());
        for _ in 0..g.r.range(2, 6) {
            let how = *g.r.pick(&[How::Tell, How::Tell, How::Ask, How::Ask, How::Ask, How::TryAsk, How::Enq, How::TryEnq]);
            let mut m = g.plain();
            m.body = match g.r.below(4) {
                0 => vec![],
                1 => vec![Op::Sleep(g.r.range(1, 6))],
                _ => vec![Op::Sleep(g.r.range(1, 30))],
            };
            if g.r.pct(10) {
                m.end = End::Err;
            }
            if how.is_ask() && g.r.pct(10) {
                m.kind = Kind::Deleg(DelegHow::Task(g.r.range(1, 20)));
            }
            let (mut omt, mut ort) = (None, None);
            if !how.is_try() && g.r.pct(60) {
                omt = Some(g.r.range(0, 25));
            }
            if how.is_ask() && g.r.pct(60) {
                ort = Some(g.r.range(0, 25));
            }
            if how == How::Tell {
                m.end = End::Ok;
            }
            let recipient = g.r.pct(30);
            ops.push(Op::Send { to: 0, how, mt: omt, rt: ort, cx: None, recipient, m });
            if g.r.pct(25) {
                ops.extend(g.pause());
            }
            if g.r.pct(30) {
                ops.push(Op::Collect);
            }
        }
        tasks.push(TaskSpec { thread: g.r.pct(10), ops });
    }
    if g.r.pct(15) {
        let mut ops = vec![Op::Sleep(g.r.range(1, 60))];
        ops.push(if g.r.pct(50) { Op::Kill { to: 0, recipient: false } } else { Op::Stop { to: 0, recipient: false } });
        tasks.push(TaskSpec { thread: false, ops });
    }
    sc(vec![a], tasks)
}

const MS: u64 = 1_000_000;

fn judge06(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let cap = sc.actors[0].cap;
    let signals = v.ops.iter().any(|o| o.how == "stop" || o.how == "kill");
    for o in hangs(v, sc) {
        if o.is_send() {
            out.push(viol("hangs", describe(o)));
        }
    }
    for o in v.sends() {
        let (mt, rt) = (o.tag("mt"), o.tag("rt"));
        let Some(r) = &o.ret else { continue };
        let hs = v.hs(o.mid);
        let replied = produced(v, o).first().map(|p| h[(p.0 - 1) as usize].t);
        // when the message was accepted: between lo and hi
        let mut lo = o.t;
        let mut hi = hs.first().map(|s| s.t0);
        if o.is_try() || cap.is_none() {
            hi = Some(o.t);
        }
        if let Some(e) = o.enq {
            lo = e.1;
            hi = Some(e.1);
        }
        if let (Some(c), false) = (cap, o.is_try()) {
            if occupancy(v, o.n).1 <= c && o.enq.is_none() && !signals {
                // (the count includes this message itself)
                hi = Some(o.t);
            }
        }
        // while the mailbox is certainly full of other messages, this one is outside
        if let (Some(c), "Ask", false) = (cap, o.how.as_str(), signals) {
            let end = hs.first().map(|s| s.n0.min(r.n)).unwrap_or(r.n);
            for w in h[(o.n - 1) as usize..].windows(2) {
                if w[1].n > end {
                    break;
                }
                if w[1].t > w[0].t && occupancy(v, w[0].n).0 >= c {
                    lo = w[1].t;
                }
            }
        }
        if let Some(mt) = mt {
            if o.accepted() && cap.is_some() {
                let cap_t = o.t + mt * MS;
                hi = Some(hi.map_or(cap_t, |x| x.min(cap_t)));
            }
        }
        match r.code {
            TIMEOUT_MSG => match mt {
                None => out.push(viol("mailbox-timeout-unasked", describe(o))),
                Some(mt) => {
                    if r.t != o.t + mt * MS {
                        out.push(viol("mailbox-timeout-at-wrong-time", describe(o)));
                    }
                    match cap {
                        None => out.push(viol("mailbox-timeout-unbounded", describe(o))),
                        Some(cap) => {
                            for w in h.windows(2) {
                                let n = w[0].n;
                                if w[1].t > w[0].t && n > o.n && n < r.n {
                                    let (lo, _) = occupancy(v, n);
                                    let asks = v.sends().filter(|p| p.how.contains("Ask") && p.n <= n && p.send_ret_n().map(|x| x > n).unwrap_or(true) && v.hs(p.mid).first().map(|s| s.n0 > n).unwrap_or(true)).count();
                                    if lo + asks < cap && !signals {
                                        out.push(viol("mailbox-timeout-with-room", describe(o)));
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
            },
            TIMEOUT_NONE => match rt {
                None => out.push(viol("reply-timeout-unasked", describe(o))),
                Some(rt) => {
                    let d = rt * MS;
                    if o.enq.is_some() {
                        // measured from when the reply is awaited
                        let c = o.cinv.unwrap().1;
                        if r.t != c + d {
                            out.push(viol("reply-timeout-at-wrong-time", describe(o)));
                        }
                    } else if r.t < lo + d || hi.map(|x| r.t > x + d).unwrap_or(false) {
                        out.push(viol("reply-timeout-at-wrong-time", describe(o)));
                    }
                    if rt > 0 && replied.map(|x| x < r.t).unwrap_or(false) {
                        out.push(viol("reply-timeout-after-reply", describe(o)));
                    }
                }
            },
            OK | HANDLER if o.is_ask() => {
                let t = replied.unwrap_or(r.t);
                let want = match o.cinv {
                    Some(c) if o.enq.is_some() => t.max(c.1),
                    _ => t,
                };
                if r.t != want {
                    out.push(viol("reply-late", format!("{} (reply produced at {} ms)", describe(o), t / MS)));
                }
                if let (Some(rt), Some(hi)) = (rt, hi) {
                    let from = if o.enq.is_some() { o.cinv.map(|c| c.1).unwrap_or(hi) } else { hi };
                    if r.t > from + rt * MS {
                        out.push(viol("reply-timeout-missed", describe(o)));
                    }
                }
            }
            OK => {
                if let Some(mt) = mt {
                    if r.t > o.t + mt * MS {
                        out.push(viol("mailbox-timeout-missed", describe(o)));
                    }
                }
            }
            PANICKED => out.push(viol("send-panicked", describe(o))),
            FULL if !o.is_try() => out.push(viol("full-instead-of-timeout", describe(o))),
            _ => {}
        }
        if let (Some(mt), Some(e)) = (mt, o.enq) {
            if e.1 > o.t + mt * MS {
                out.push(viol("mailbox-timeout-missed", describe(o)));
            }
        }
    }
    out
}
