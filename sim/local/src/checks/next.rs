//! C33: actors that override `next` and `on_message`.
use super::*;
use crate::gen::G;

pub static LIST: &[P] = &[P {
    id: "C33",
    gen: gen33,
    judge: judge33,
    nontrivial: |_, v| v.spans.iter().filter(|s| s.k == "h").count() >= 2,
    rule: "at least two handlers ran in a world with actors that override next or on_message; distinct by history and interleaving",
    runs: 60_000,
    stall: true,
    preempt: true,
}];

/// Worlds of other properties, which hold as well if an actor takes its messages in another way.
const BASES: &[&str] = &["C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];
pub fn base(i: u8) -> &'static P {
    let id = BASES[i as usize - 1];
    core::LIST.iter().chain(life::LIST).chain(links::LIST).find(|p| p.id == id).unwrap()
}

fn take(g: &mut G) -> Take {
    let k = g.r.range(1, 4) as usize;
    *g.r.pick(&[Take::Recv, Take::Poll, Take::TryFirst, Take::Many(k), Take::Many(k), Take::PollMany(k)])
}

pub fn gen33(r: &mut Rng) -> Scenario {
    let base = r.below(2 * BASES.len() as u64) as usize;
    if base < BASES.len() {
        let b = 1 + base as u8;
        let mut s = (self::base(b).gen)(r);
        s.base = b;
        let mut g = G { r, next: 9000 };
        for a in &mut s.actors {
            if g.r.pct(80) {
                a.next = Some(NextSpec { take: take(&mut g), slow: 0, ticks: vec![], end: None, panics: vec![], close: None });
            }
        }
        return s;
    }
    let mut s = core::chaos(r, 40, true);
    let mut g = G { r, next: 5000 };
    for a in &mut s.actors {
        if g.r.pct(20) {
            continue;
        }
        let mut n = NextSpec { take: take(&mut g), slow: 0, ticks: vec![], end: None, panics: vec![], close: None };
        if g.r.pct(40) {
            n.slow = g.r.range(1, 4) as u32;
        }
        if g.r.pct(40) {
            n.ticks = (0..g.r.range(1, 4)).map(|_| g.r.below(8)).collect();
        }
        if g.r.pct(25) {
            n.end = Some((g.r.below(30), g.r.pct(50)));
        }
        if g.r.pct(40) {
            n.panics = (0..g.r.range(1, 3)).map(|_| g.r.range(1, 6)).collect();
        }
        if g.r.pct(15) {
            n.close = Some(g.r.range(1, 8));
        }
        let k = g.r.range(2, 4);
        a.onmsg = *g.r.pick(&[OnMsg::Now, OnMsg::Now, OnMsg::Batch(k as usize), OnMsg::Refuse(k), OnMsg::Panic(k)]);
        a.next = Some(n);
    }
    for t in &mut s.tasks {
        for o in &mut t.ops {
            if let Op::Send { how, recipient, .. } = o {
                if !how.is_ask() && g.r.pct(50) {
                    *how = if how.blocking() { How::BlockAsk } else { *g.r.pick(&[How::Ask, How::Enq, How::TryAsk, How::TryEnq]) };
                    *recipient = false;
                }
            }
        }
    }
    s
}

/// What happened to one actor, in order.
enum Step<'a> {
    Span(&'a Span),
    Next { n0: u64, n1: u64, kind: i64, id: i64 },
    OnMsgPanic(u64),
}

pub fn judge33(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    if sc.base > 0 {
        let b = base(sc.base);
        let mut out = (b.judge)(sc, v, h);
        for x in &mut out {
            x.class = format!("{}-{}", b.id, x.class);
        }
        return out;
    }
    let mut out = core::judge02(sc, v, h);
    out.extend(life::task_panics(v));
    // as many replies are dropped as on_message dropped
    let asks = core::judge_asks(sc, v);
    let (dropped, other): (Vec<_>, Vec<_>) = asks.into_iter().partition(|x| x.class == "reply-dropped");
    out.extend(other);
    if dropped.len() > h.iter().filter(|e| (e.k == "refused" || e.k == "ompanic") && e.a == 1).count() {
        out.extend(dropped);
    }
    for (m, s) in &v.handled {
        if s.len() > 1 && !msg_kind_is_stream(&v.spans[s[0]]) {
            out.push(viol("handled-twice", format!("message {m} was handled {} times", s.len())));
        }
    }
    for o in hangs(v, sc) {
        if !o.is_ask() {
            out.push(viol("hangs", describe(o)));
        }
    }
    let threads = sc.tasks.iter().any(|t| t.thread) || sc.actors.iter().any(|a| a.how == SpawnHow::Thread);
    for (a, spec) in sc.actors.iter().enumerate() {
        let mut steps: Vec<(u64, Step)> = v.of(a).into_iter().map(|s| (s.n0, Step::Span(s))).collect();
        let mut open = None;
        for e in h.iter().filter(|e| e.w == a as i64) {
            match e.k.as_str() {
                "nx+" => {
                    if open.is_some() {
                        out.push(viol("next-overlaps", format!("actor {a}: next was called at event {} while another call was in progress", e.n)));
                    }
                    open = Some(e.n);
                    if let Some(cap) = spec.cap {
                        if e.a > cap as i64 {
                            out.push(viol("too-many", format!("actor {a}: its mailbox of {cap} held {} signals at event {}", e.a, e.n)));
                        }
                    }
                    if (e.a == 0) != (e.b == 1) && !threads {
                        out.push(viol("len-and-empty", format!("actor {a}: mailbox of length {} said empty={} at event {}", e.a, e.b, e.n)));
                    }
                }
                "nx-" => {
                    if let Some(n0) = open.take() {
                        steps.push((n0, Step::Next { n0, n1: e.n, kind: e.a, id: e.b }));
                    }
                }
                "ompanic" => steps.push((e.n, Step::OnMsgPanic(e.n))),
                _ => {}
            }
        }
        if let Some(n0) = open {
            steps.push((n0, Step::Next { n0, n1: u64::MAX, kind: -1, id: 0 }));
        }
        steps.sort_by_key(|s| s.0);
        let steps: Vec<Step> = steps.into_iter().map(|s| s.1).collect();
        let kill = |n: u64| v.ops.iter().any(|o| o.how == "kill" && o.actor == a as i64 && o.n < n);
        let mut ended: Option<u64> = None;
        for (i, s) in steps.iter().enumerate() {
            let next = steps.get(i + 1);
            let follow = match next {
                None => "nothing".to_string(),
                Some(Step::Span(s)) => format!("{} {} {:?} at event {}", s.k, s.id, s.s, s.n0),
                Some(Step::Next { n0, .. }) => format!("next at event {n0}"),
                Some(Step::OnMsgPanic(n)) => format!("on_message at event {n}"),
            };
            match s {
                Step::Next { n0, n1, kind, id } => {
                    if let Some(Step::Span(x)) = next {
                        if x.n0 < *n1 {
                            out.push(viol("ran-during-next", format!("actor {a}: {follow} while next (event {n0}) was waiting")));
                        }
                    }
                    if let Some(Step::Span(x)) = i.checked_sub(1).map(|j| &steps[j]) {
                        if x.n1.map(|e| e > *n0).unwrap_or(true) {
                            out.push(viol("next-during", format!("actor {a}: next was called at event {n0} during {} {}", x.k, x.id)));
                        }
                        if x.k == "stp" {
                            out.push(viol("next-after-stop", format!("actor {a}: next was called at event {n0} after on_stop")));
                        }
                    } else if i == 0 {
                        out.push(viol("next-before-start", format!("actor {a}: next was called at event {n0}")));
                    }
                    if let Some(e) = ended {
                        out.push(viol("next-after-end", format!("actor {a}: next was called at event {n0} after it had ended the actor at event {e}")));
                    }
                    match *kind {
                        NX_OWN => {
                            let direct = spec.onmsg == OnMsg::Now;
                            let ok = matches!(next, Some(Step::Span(x)) if x.k == "h" && x.id == *id);
                            if direct && !ok && v.end > 0 && !kill(u64::MAX) {
                                out.push(viol("own-message-not-handled", format!("actor {a}: next returned message {id} at event {n1}, then {follow}")));
                            }
                            if direct && ok && v.hs(*id).len() != 1 {
                                out.push(viol("own-message-twice", format!("actor {a}: message {id}")));
                            }
                        }
                        NX_OWN_STOP | NX_OWN_END | NX_STOP | NX_CLOSED => ended = Some(*n1),
                        NX_PANIC => {
                            let want = format!("boom:{}", 940_000 + a);
                            if !matches!(next, Some(Step::Span(x)) if x.k == "pan" && x.s == want) && v.end > 0 {
                                out.push(viol("panic-in-next-unhandled", format!("actor {a}: next panicked at event {n1}, then {follow}")));
                            }
                        }
                        NX_CUT => {
                            if !kill(*n1) {
                                out.push(viol("next-cut", format!("actor {a}: next was dropped at event {n1}, then {follow}")));
                            }
                            if v.end > 0 && !matches!(next, Some(Step::Span(x)) if x.k == "stp" && x.s == "killed") {
                                out.push(viol("killed-in-next", format!("actor {a}: killed during next at event {n1}, then {follow}")));
                            }
                        }
                        _ => {}
                    }
                }
                Step::OnMsgPanic(n) => {
                    let want = format!("boom:{}", 950_000 + a);
                    if !matches!(next, Some(Step::Span(x)) if x.k == "pan" && x.s == want) && v.end > 0 {
                        out.push(viol("panic-in-on-message-unhandled", format!("actor {a}: on_message panicked at event {n}, then {follow}")));
                    }
                }
                Step::Span(s) if s.k == "pan" && s.done() => {
                    let want = match (s.code, s.val) {
                        (0, 1) => None,
                        (0, 0) => Some(format!("panicked({})", s.s)),
                        (0, 2) => Some("normal".into()),
                        (0, 3) => Some("killed".into()),
                        (1, _) => Some(format!("panicked(err:{})", 910_000 + a)),
                        _ => Some(format!("panicked(boom:{})", 910_000 + a)),
                    };
                    let from_start = matches!(i.checked_sub(1).map(|j| &steps[j]), Some(Step::Span(p)) if p.k == "start");
                    if let Some(w) = want.filter(|_| !from_start) {
                        let ok = matches!(next, Some(Step::Span(x)) if x.k == "stp" && (x.s == w || x.s == "killed" && kill(x.n0)));
                        if !ok && v.end > 0 {
                            out.push(viol("panic-decision-ignored", format!("actor {a}: on_panic at event {} decided {w}, then {follow}", s.n0)));
                        }
                    } else if spec.next.is_some() && !from_start && v.end > 0 && ended.is_none() && next.is_none() {
                        out.push(viol("not-continued", format!("actor {a}: on_panic at event {} decided to continue, then nothing happened", s.n0)));
                    }
                }
                _ => {}
            }
        }
        if let Some(c) = h.iter().find(|e| e.k == "closed" && e.w == a as i64) {
            if c.id != 1 {
                out.push(viol("not-closed", format!("actor {a} closed its mailbox at event {}, which says that it is open", c.n)));
            }
            for o in v.sends().filter(|o| o.actor == a as i64 && o.n > c.n && o.accepted()) {
                out.push(viol("accepted-after-close", format!("actor {a} closed its mailbox at event {}; {}", c.n, describe(o))));
            }
            if v.stop(a).is_none() && v.end > 0 && !steps.iter().any(|s| matches!(s, Step::Span(s) if s.n1.is_none())) {
                out.push(viol("closed-but-alive", format!("actor {a} closed its mailbox at event {} and never stopped", c.n)));
            }
        }
        if spec.onmsg == OnMsg::Now && spec.next.as_ref().map(|n| n.end.is_none()).unwrap_or(true) {
            out.extend(core::lost_of(v, a));
        }
        // all that next returned is handled, and nothing else is
        if spec.next.is_some() && spec.onmsg == OnMsg::Now && v.end > 0 {
            let taken = steps.iter().filter(|s| matches!(s, Step::Next { kind: NX_MESSAGE | NX_OWN, .. })).count();
            let handled = v.hook(a, "h").len();
            let spared = !kill(u64::MAX) && v.stop(a).map(|s| s.s == "normal").unwrap_or(true) && !v.of(a).iter().any(|s| (s.k == "pan" && s.val == 2) || (s.k == "lnk" && s.val == 2));
            if handled > taken {
                out.push(viol("handled-from-elsewhere", format!("actor {a}: next returned {taken} messages, {handled} were handled")));
            }
            if spared && handled < taken {
                out.push(viol("taken-not-handled", format!("actor {a}: next returned {taken} messages, {handled} were handled")));
            }
        }
        if let Some(e) = ended {
            match v.stop(a) {
                None if v.end > 0 => out.push(viol("not-ended", format!("actor {a}: next ended it at event {e}, but it did not stop"))),
                Some(s) => {
                    let later = v.of(a).iter().any(|x| (x.k == "pan" || x.k == "lnk") && x.n0 > e);
                    if s.s != "normal" && !later && !kill(s.n0) {
                        out.push(viol("ended-wrong-reason", format!("actor {a}: next ended it at event {e}, but the reason was {}", s.s)));
                    }
                }
                _ => {}
            }
        }
    }
    out
}
