//! C14–C16: links between local actors.
use super::*;
use crate::gen::G;
use std::collections::BTreeSet;

pub static LIST: &[P] = &[
    P {
        id: "C14",
        gen: gen14,
        judge: judge14,
        nontrivial: |_, v| v.spans.iter().any(|s| s.k == "lnk"),
        rule: "at least one link death was notified; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C15",
        gen: gen15,
        judge: judge15,
        nontrivial: |_, v| v.spans.iter().filter(|s| s.k == "lnk").count() >= 2,
        rule: "at least two link deaths were notified; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C16",
        gen: gen16,
        judge: judge16,
        nontrivial: |_, v| v.ops.iter().filter(|o| o.how == "link" || o.how == "unlink").count() >= 2 && v.spans.iter().any(|s| s.k == "stp"),
        rule: "at least two link or unlink operations and one death; distinct by history and interleaving",
        runs: 60_000,
        stall: true,
        preempt: true,
    },
];

fn sc(actors: Vec<ActorSpec>, tasks: Vec<TaskSpec>) -> Scenario {
    Scenario { actors, tasks, horizon: 5_000, base: 0 }
}

/// An operation that ends an actor.
fn death(g: &mut G, to: usize) -> Op {
    match g.r.below(6) {
        0 => Op::Stop { to, recipient: g.r.pct(20) },
        1 | 2 => Op::Kill { to, recipient: g.r.pct(20) },
        3 => Op::Drop(to),
        _ => {
            let mut m = g.plain();
            m.end = *g.r.pick(&[End::Err, End::Panic]);
            g.send(to, How::Tell, m)
        }
    }
}

fn pair(g: &mut G, n: usize) -> (usize, usize) {
    let a = g.r.below(n as u64) as usize;
    let b = (a + 1 + g.r.below(n as u64 - 1) as usize) % n;
    (a, b)
}

fn gen14(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(2, 4) as usize;
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        if i > 0 && g.r.pct(25) {
            a.how = SpawnHow::Link(g.r.below(i as u64) as usize);
        }
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(40);
        a.start = g.pause();
        if g.r.pct(12) {
            a.start_end = *g.r.pick(&[End::Err, End::Panic]);
        }
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Default, PanicHook::Continue, PanicHook::BreakNormal, PanicHook::BreakKilled, PanicHook::Err, PanicHook::Panic]);
        a.link_hook = *g.r.pick(&[LinkHook::Default, LinkHook::Continue, LinkHook::Continue, LinkHook::Continue, LinkHook::BreakNormal, LinkHook::Err, LinkHook::Panic]);
        a.link_body = g.pause();
        a.stop_body = g.pause();
        a.stop_end = *g.r.pick(&[End::Ok, End::Ok, End::Ok, End::Err, End::Panic]);
        actors.push(a);
    }
    let mut tasks = vec![];
    for t in 0..g.r.range(1, 4) {
        let thread = g.r.pct(20);
        let mut ops = vec![];
        // links made before the actor runs
        if t == 0 {
            for _ in 0..g.r.below(4) {
                let (a, b) = pair(&mut g, n);
                ops.push(Op::Link { a, b, block: thread && g.r.pct(50) });
            }
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.extend(g.pause());
                    ops.push(Op::Spawn(i));
                }
            }
        }
        ops.extend(g.pause());
        for _ in 0..g.r.range(1, 7) {
            let (a, b) = pair(&mut g, n);
            match g.r.below(100) {
                0..=34 => ops.push(Op::Link { a, b, block: thread && g.r.pct(50) }),
                35..=49 => ops.push(Op::Unlink { a, b, block: thread && g.r.pct(50) }),
                50..=69 => {
                    let d = death(&mut g, a);
                    ops.push(d)
                }
                70..=84 => {
                    let m = g.plain();
                    let how = *g.r.pick(&[How::Tell, How::TryTell, How::TryAsk]);
                    let o = g.send(a, how, m);
                    ops.push(o)
                }
                _ => {
                    let p = g.pause();
                    ops.extend(p)
                }
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

struct LinkView<'a> {
    links: Vec<(usize, usize, &'a OpRec)>,
    unlinks: Vec<(usize, usize, &'a OpRec)>,
}
fn link_ops(v: &View) -> LinkView<'_> {
    let of = |how: &str| -> Vec<(usize, usize, &OpRec)> { v.ops.iter().filter(|o| o.how == how).map(|o| (o.actor as usize, o.mid as usize, o)).collect() };
    LinkView { links: of("link"), unlinks: of("unlink") }
}
fn is_pair(p: &(usize, usize, &OpRec), x: usize, y: usize) -> bool {
    (p.0, p.1) == (x, y) || (p.0, p.1) == (y, x)
}

/// The first event at which actor `a` may have lost its last strong reference (an over-estimate of how early).
fn unref(h: &[Ev], a: usize) -> Option<u64> {
    h.iter().find(|e| e.k == "dropref" && e.b == a as i64).map(|e| e.n)
}

fn judge14(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let l = link_ops(v);
    let n = sc.actors.len();
    for x in 0..n {
        for y in 0..n {
            if x == y {
                continue;
            }
            let got: Vec<&Span> = v.hook(y, "lnk").into_iter().filter(|s| s.id == x as i64).collect();
            if got.len() > 1 {
                out.push(viol("notified-twice", format!("actor {y} was told {} times of the death of actor {x}", got.len())));
            }
            let stp = v.stop(x);
            for s in &got {
                match stp {
                    Some(p) if p.n0 < s.n0 => {
                        if p.s != s.s {
                            out.push(viol("wrong-reason", format!("actor {x} stopped with reason {}, actor {y} was told {}", p.s, s.s)));
                        }
                    }
                    _ => out.push(viol("notified-of-the-living", format!("actor {y} was told at event {} that actor {x} died", s.n0))),
                }
                if !l.links.iter().any(|p| is_pair(p, x, y) && p.2.n < s.n0) {
                    out.push(viol("notified-without-link", format!("actor {y} was told of the death of actor {x} with which it was never linked")));
                }
            }
            let Some(_) = stp else { continue };
            let cause = [v.first_cause(x), unref(h, x)].into_iter().flatten().min().unwrap_or(0);
            // an unlink that completed before the death and no link since
            let last_unlink = l.unlinks.iter().filter(|p| is_pair(p, x, y)).filter(|p| p.2.ret.as_ref().map(|r| r.n < cause).unwrap_or(false)).max_by_key(|p| p.2.n);
            if let Some(u) = last_unlink {
                let since = l.links.iter().any(|p| is_pair(p, x, y) && p.2.ret.as_ref().map(|r| r.n > u.2.n).unwrap_or(true));
                if !since && !got.is_empty() {
                    out.push(viol("notified-after-unlink", format!("actor {y} was told of the death of actor {x} although {}", describe(u.2))));
                }
            }
            // must be told
            let linked = l.links.iter().filter(|p| is_pair(p, x, y)).find(|p| p.2.ret.as_ref().map(|r| r.n < cause).unwrap_or(false));
            let Some(linked) = linked else { continue };
            let gone = v.drop.get(&x).map(|d| d.0).unwrap_or(u64::MAX);
            if l.unlinks.iter().any(|p| is_pair(p, x, y) && p.2.n < gone && p.2.ret.as_ref().map(|r| r.n > linked.2.n).unwrap_or(true)) {
                continue;
            }
            if v.end == 0 || v.deadline || !v.spawn.contains_key(&y) || v.started(y).map(|s| s.code != 0).unwrap_or(true) {
                continue;
            }
            // still running, or ended only by something that came after the notification was sent
            let later = |n: u64| n > gone;
            let own_end = v.ops.iter().filter(|o| o.actor == y as i64 && (o.how == "kill" || o.how == "stop") && o.code() != Some(NOT_RUNNING)).any(|o| o.how == "kill" || !later(o.n))
                || unref(h, y).map(|n| !later(n)).unwrap_or(false)
                || v.of(y).iter().any(|s| (s.k == "pan" && !(s.code == 0 && s.val == 1)) || (s.k == "lnk" && !(s.code == 0 && s.val == 0)));
            if got.is_empty() && (v.stop(y).is_none() || !own_end) {
                out.push(viol("not-notified", format!("actor {y} was never told of the death of actor {x}, linked by {}", describe(linked.2))));
            }
        }
    }
    out
}

// ---- C15 -----------------------------------------------------------------------------------------

fn gen15(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(2, 6) as usize;
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        if i > 0 && g.r.pct(25) {
            a.how = SpawnHow::Link(g.r.below(i as u64) as usize);
        }
        a.link_body = g.pause();
        a.stop_body = g.pause();
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Default, PanicHook::Continue, PanicHook::BreakNormal, PanicHook::BreakKilled]);
        a.stop_end = *g.r.pick(&[End::Ok, End::Ok, End::Ok, End::Err, End::Panic]);
        if g.r.pct(5) {
            a.start_end = *g.r.pick(&[End::Err, End::Panic]);
            a.start = vec![Op::Sleep(g.r.range(1, 8))];
        }
        actors.push(a);
    }
    // a shape: chain, star, cycle, random
    let mut ops = vec![];
    let push = |ops: &mut Vec<Op>, a: usize, b: usize| {
        if a != b {
            ops.push(Op::Link { a, b, block: false })
        }
    };
    match g.r.below(4) {
        0 => (1..n).for_each(|i| push(&mut ops, i - 1, i)),
        1 => (1..n).for_each(|i| push(&mut ops, 0, i)),
        2 => (0..n).for_each(|i| push(&mut ops, i, (i + 1) % n)),
        _ => {
            for _ in 0..g.r.range(1, n as u64 + 2) {
                let (a, b) = pair(&mut g, n);
                push(&mut ops, a, b)
            }
        }
    }
    for i in (1..ops.len()).rev() {
        let j = g.r.below(i as u64 + 1) as usize;
        ops.swap(i, j);
    }
    let mut tasks = vec![TaskSpec { thread: false, ops }];
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![Op::Sleep(g.r.below(12))];
        for _ in 0..g.r.range(1, 3) {
            let to = g.r.below(n as u64) as usize;
            let d = death(&mut g, to);
            ops.push(d);
            if g.r.pct(50) {
                ops.push(Op::Sleep(g.r.range(1, 30)));
            }
        }
        tasks.push(TaskSpec { thread: g.r.pct(15), ops });
    }
    if g.r.pct(30) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 4) {
            let m = g.plain();
            let to = g.r.below(n as u64) as usize;
            let o = g.send(to, How::Tell, m);
            ops.push(o);
        }
        tasks.push(TaskSpec { thread: false, ops });
    }
    sc(actors, tasks)
}

fn judge15(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let n = sc.actors.len();
    let l = link_ops(v);
    for y in 0..n {
        let sp = v.of(y);
        let killed = v.killed(y);
        for (i, s) in sp.iter().enumerate() {
            if s.k != "lnk" || !s.done() {
                continue;
            }
            let next = sp.get(i + 1);
            if s.s == "normal" {
                if s.val != 0 {
                    out.push(viol("stopped-by-normal-death", format!("actor {y} decided to stop when actor {} stopped normally", s.id)));
                }
                continue;
            }
            let want = format!("link({},{})", s.id, s.s);
            match next {
                Some(p) if p.k == "stp" => {
                    if p.s != want && !(killed && p.s == "killed") {
                        out.push(viol("wrong-reason", format!("actor {y} stopped with reason {} instead of {want}", p.s)));
                    }
                }
                None if v.end == 0 => {}
                p => out.push(viol("survived-abnormal-death", format!("actor {y} was told that actor {} died ({}) and went on with {:?}", s.id, s.s, p.map(|p| &p.k)))),
            }
        }
        if let Some(s) = v.stop(y) {
            let own = v.ops.iter().any(|o| (o.how == "stop" || o.how == "kill") && o.actor == y as i64 && o.n < s.n0)
                || unref(h, y).map(|n| n < s.n0).unwrap_or(false)
                || sp.iter().any(|x| x.k == "pan")
                || sp[0].code != 0;
            let by_link = sp.iter().any(|x| x.k == "lnk" && x.s != "normal" && x.n0 < s.n0);
            if !own && !by_link {
                out.push(viol("died-without-cause", format!("actor {y} stopped with reason {}", s.s)));
            }
            if s.s.starts_with("link(") && !sp.iter().any(|x| x.k == "lnk" && s.s == format!("link({},{})", x.id, x.s)) {
                out.push(viol("wrong-reason", format!("actor {y} stopped with reason {} although it was not told so", s.s)));
            }
        }
    }
    // abnormal deaths spread along links made before either end had a cause to die
    if v.end > 0 && !v.deadline {
        let cause = |x: usize| [v.first_cause(x), unref(h, x)].into_iter().flatten().min().unwrap_or(u64::MAX);
        let mut seen = BTreeSet::new();
        for p in &l.links {
            let Some(r) = &p.2.ret else { continue };
            for (x, y) in [(p.0, p.1), (p.1, p.0)] {
                let Some(s) = v.stop(x) else { continue };
                if s.s != "normal" && r.n < cause(x) && r.n < cause(y) && v.stop(y).is_none() && v.spawn.contains_key(&y) && seen.insert((x, y)) {
                    out.push(viol("abnormal-death-not-propagated", format!("actor {x} stopped with reason {}, actor {y}, linked to it, still runs", s.s)));
                }
            }
        }
    }
    out
}

// ---- C16 -----------------------------------------------------------------------------------------

fn gen16(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(2, 4) as usize;
    let mut actors = vec![];
    for i in 0..n {
        let mut a = ActorSpec { cap: *g.r.pick(&[None, Some(1), Some(1), Some(2), Some(3)]), how: g.spawn_how(true), ..Default::default() };
        if i > 0 && g.r.pct(20) {
            a.how = SpawnHow::Link(g.r.below(i as u64) as usize);
        }
        a.start = g.pause();
        a.link_hook = *g.r.pick(&[LinkHook::Default, LinkHook::Default, LinkHook::Continue, LinkHook::BreakNormal, LinkHook::Err]);
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Continue]);
        a.link_body = g.pause();
        a.stop_body = g.pause();
        // hooks that change links themselves
        if g.r.pct(15) {
            let b = (i + 1 + g.r.below(n as u64 - 1) as usize) % n;
            let op = if g.r.pct(50) { Op::Link { a: i, b, block: false } } else { Op::Unlink { a: i, b, block: false } };
            match g.r.below(3) {
                0 => a.start.push(op),
                1 => a.link_body.push(op),
                _ => a.stop_body.push(op),
            }
        }
        actors.push(a);
    }
    let mut tasks = vec![];
    for _ in 0..g.r.range(2, 5) {
        let thread = g.r.pct(30);
        let mut ops = vec![];
        for _ in 0..g.r.range(2, 8) {
            let (a, b) = pair(&mut g, n);
            match g.r.below(100) {
                0..=34 => ops.push(Op::Link { a, b, block: thread && g.r.pct(60) }),
                35..=54 => ops.push(Op::Unlink { a, b, block: thread && g.r.pct(60) }),
                55..=69 => {
                    let d = death(&mut g, a);
                    ops.push(d)
                }
                70..=94 => {
                    // load
                    let mut m = g.plain();
                    if g.r.pct(30) {
                        let (x, y) = (a, b);
                        m.body.push(if g.r.pct(60) { Op::Link { a: x, b: y, block: false } } else { Op::Unlink { a: x, b: y, block: false } });
                    }
                    let how = *g.r.pick(&[How::Tell, How::TryTell, How::TryTell, How::Tell, How::TryAsk]);
                    let o = g.send(a, how, m);
                    ops.push(o)
                }
                _ => {
                    let p = g.pause();
                    ops.extend(p)
                }
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    if g.r.pct(50) {
        // everybody ends at once
        for i in 0..n {
            if g.r.pct(80) {
                let o = if g.r.pct(50) { Op::Stop { to: i, recipient: false } } else { Op::Kill { to: i, recipient: false } };
                tasks.push(TaskSpec { thread: false, ops: vec![Op::Sleep(20), o, Op::WaitStop { to: i, result: false }] });
            }
        }
    }
    sc(actors, tasks)
}

fn judge16(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    if v.end == 0 {
        return out;
    }
    for o in hangs(v, sc) {
        let a = o.actor as usize;
        let ended = v.stop(a).is_some() || v.killed(a) || v.first_op("stop", a).map(|s| s.code() == Some(OK)).unwrap_or(false);
        if o.how == "link" || o.how == "unlink" || o.is_send() || o.how == "stop" || (o.how == "waitstop" && ended) {
            out.push(viol("hangs", describe(o)));
        }
    }
    for a in v.spawn.keys() {
        for s in v.of(*a) {
            if s.n1.is_none() {
                out.push(viol("hook-hangs", format!("actor {a}: {} {} began at event {} and never ended", s.k, s.id, s.n0)));
            }
        }
        if v.stop(*a).is_some() && !v.drop.contains_key(a) {
            out.push(viol("never-finished-stopping", format!("actor {a} began on_stop at event {} and never finished", v.stop(*a).unwrap().n0)));
        }
        let told = v.ops.iter().find(|o| o.actor == *a as i64 && (o.how == "kill" || o.how == "stop") && o.code() == Some(OK));
        if let (Some(o), None) = (told, v.stop(*a)) {
            out.push(viol("never-stopped", describe(o)));
        }
    }
    out
}
