//! C17–C19: registry, attached streams, delegated and forwarded replies.
use super::*;
use crate::gen::G;
use std::collections::{BTreeMap, HashMap, HashSet};

pub static LIST: &[P] = &[
    P {
        id: "C17",
        gen: gen17,
        judge: judge17,
        nontrivial: |_, v| {
            let r: Vec<_> = v.ops.iter().filter(|o| is_reg(o)).collect();
            r.iter().any(|a| r.iter().any(|b| a.who != b.who && a.n < b.n && a.ret.as_ref().map_or(true, |x| x.n > b.n)))
        },
        rule: "at least two registry operations of different threads overlapped; distinct by history and interleaving",
        runs: 60_000,
        stall: false,
        preempt: true,
    },
    P {
        id: "C18",
        gen: gen18,
        judge: judge18,
        nontrivial: |_, v| v.spans.iter().any(|s| s.s == "item"),
        rule: "at least one stream item was handled; distinct by history and interleaving",
        runs: 50_000,
        stall: true,
        preempt: true,
    },
    P {
        id: "C19",
        gen: gen19,
        judge: judge19,
        nontrivial: |_, v| v.sends().any(|o| o.is_ask() && v.hs(o.mid).iter().any(|s| s.code == 3 || s.code == 4)),
        rule: "at least one ask was delegated or forwarded; distinct by history and interleaving",
        runs: 50_000,
        stall: true,
        preempt: true,
    },
];

fn sc(actors: Vec<ActorSpec>, tasks: Vec<TaskSpec>) -> Scenario {
    Scenario { actors, tasks, horizon: 5_000, base: 0 }
}

// ---- C17 -----------------------------------------------------------------------------------------

fn is_reg(o: &OpRec) -> bool {
    matches!(o.how.as_str(), "reg" | "lookup" | "unreg" | "rx")
}

fn gen17(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 3) as usize;
    let actors: Vec<_> = (0..n).map(|_| ActorSpec { how: if g.r.pct(80) { SpawnHow::Plain } else { SpawnHow::Thread }, ..Default::default() }).collect();
    let names = g.r.range(1, 3);
    let mut tasks = vec![];
    let nt = g.r.range(2, 4);
    let budget = 14 / nt;
    for _ in 0..nt {
        let mut ops = g.pause();
        for _ in 0..g.r.range(2, budget.max(2)) {
            let name = g.r.below(names) as u8;
            let to = g.r.below(n as u64) as usize;
            ops.push(match g.r.below(100) {
                0..=29 => Op::Reg { name, to },
                30..=54 => Op::Lookup { name, other: g.r.pct(25) },
                55..=69 => Op::Unreg { name },
                70..=77 => Op::Rx { op: RegOp::Insert, name, to },
                78..=82 => Op::Rx { op: *g.r.pick(&[RegOp::RegOther, RegOp::InsertOther]), name, to },
                83..=89 => Op::Rx { op: *g.r.pick(&[RegOp::Contains, RegOp::Len, RegOp::Names]), name, to },
                90..=92 => Op::Rx { op: RegOp::Clear, name, to },
                93..=94 => Op::Kill { to, recipient: false },
                _ => Op::Yield(1),
            });
        }
        tasks.push(TaskSpec { thread: g.r.pct(85), ops });
    }
    sc(actors, tasks)
}

/// The sequential registry: name -> actor (-2: an actor of another type).
type Reg = BTreeMap<i64, i64>;
fn step17(m: &Reg, o: &OpRec) -> Option<Reg> {
    let mut n = m.clone();
    let r = o.ret.as_ref();
    // an operation that never returned may have any result
    let ok = |c: i64, v: i64| r.map_or(true, |r| r.code == c && r.val == v);
    let good = match (o.how.as_str(), o.tags.as_str()) {
        ("reg", _) | ("rx", "RegOther") => {
            n.insert(o.mid, o.actor);
            ok(OK, 0)
        }
        ("rx", "Insert" | "InsertOther") => {
            let had = n.insert(o.mid, o.actor).is_some();
            ok(OK, had as i64)
        }
        ("rx", "Contains") => ok(OK, m.contains_key(&o.mid) as i64),
        ("rx", "Len") => ok(OK, m.len() as i64),
        ("rx", "Names") => ok(OK, m.keys().fold(0, |a, k| a | 1 << k)),
        ("rx", "Clear") => {
            n.clear();
            ok(OK, 0)
        }
        ("lookup", t) => match (m.get(&o.mid), t == "other") {
            (None, _) => ok(NONE, -1),
            (Some(-2), true) => ok(OK, -2),
            (Some(_), true) | (Some(-2), false) => r.map_or(true, |r| r.code == HANDLER && r.s.contains("BadActorType")),
            (Some(i), false) => ok(OK, *i),
        },
        ("unreg", _) => {
            let had = n.remove(&o.mid).is_some();
            ok(OK, had as i64)
        }
        _ => true,
    };
    good.then_some(n)
}

fn linearizable(ops: &[&OpRec]) -> bool {
    fn go(ops: &[&OpRec], done: u32, m: &Reg, seen: &mut HashSet<(u32, Vec<(i64, i64)>)>) -> bool {
        if (0..ops.len()).all(|i| done & (1 << i) != 0 || ops[i].ret.is_none()) {
            return true;
        }
        if !seen.insert((done, m.iter().map(|(a, b)| (*a, *b)).collect())) {
            return false;
        }
        // an operation may come next if no other pending one returned before it began
        let first = (0..ops.len()).filter(|i| done & (1 << i) == 0).filter_map(|i| ops[i].ret.as_ref().map(|r| r.n)).min().unwrap_or(u64::MAX);
        for i in 0..ops.len() {
            if done & (1 << i) == 0 && ops[i].n < first {
                if let Some(n) = step17(m, ops[i]) {
                    if go(ops, done | (1 << i), &n, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    go(ops, 0, &Reg::new(), &mut HashSet::new())
}

fn judge17(sc: &Scenario, v: &View, _h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let ops: Vec<_> = v.ops.iter().filter(|o| is_reg(o)).collect();
    for o in &ops {
        if o.code() == Some(PANICKED) {
            out.push(viol("registry-panicked", describe(o)));
        }
    }
    if out.is_empty() && ops.len() <= 30 && !linearizable(&ops) {
        out.push(viol("not-linearizable", format!("no order of these operations explains their results: {}", ops.iter().map(|o| describe(o)).collect::<Vec<_>>().join("; "))));
    }
    for o in hangs(v, sc).into_iter().filter(|o| is_reg(o)) {
        out.push(viol("registry-hangs", describe(o)));
    }
    out
}

// ---- C18 -----------------------------------------------------------------------------------------

fn gen18(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(1, 2) as usize;
    let mut actors = vec![];
    for _ in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        a.start = g.pause();
        if g.r.pct(8) {
            a.start_end = *g.r.pick(&[End::Err, End::Panic]);
        }
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(20);
        a.stop_body = g.pause();
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Continue]);
        actors.push(a);
    }
    let mut tasks = vec![];
    let end = g.r.pct(60);
    for t in 0..g.r.range(1, 4) {
        let thread = g.r.pct(20);
        let mut ops = vec![];
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.extend(g.pause());
                    ops.push(Op::Spawn(i));
                }
            }
        }
        ops.extend(g.pause());
        for _ in 0..g.r.range(1, 6) {
            let to = g.r.below(n as u64) as usize;
            match g.r.below(100) {
                0..=44 => {
                    let base = 100_000 + g.id() * 1000;
                    let gaps = (0..g.r.below(8)).map(|_| if g.r.pct(60) { 0 } else { g.r.below(8) }).collect();
                    ops.push(Op::Attach { to, base, gaps, forever: g.r.pct(25) });
                }
                45..=74 => {
                    let how = if thread { g.how_thread() } else { g.how_async() };
                    let mut m = g.plain();
                    if g.r.pct(20) {
                        m.body.push(Op::Sleep(g.r.range(1, 30)));
                    }
                    if g.r.pct(8) {
                        m.end = *g.r.pick(&[End::Err, End::Panic]);
                    }
                    let o = g.send(to, how, m);
                    ops.push(o);
                }
                75..=79 => ops.push(Op::Drop(to)),
                _ => {
                    let p = g.pause();
                    ops.extend(p);
                }
            }
        }
        if end && g.r.pct(70) {
            ops.push(Op::Sleep(g.r.below(25)));
            let to = g.r.below(n as u64) as usize;
            ops.push(if g.r.pct(50) { Op::Stop { to, recipient: false } } else { Op::Kill { to, recipient: false } });
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

fn judge18(_sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    for at in h.iter().filter(|e| e.k == "attach") {
        let (base, n, a) = (at.id, at.a, at.b as usize);
        let forever = at.s == "forever";
        let desc = |s: &str| format!("stream {base} of {n} items on actor {a}: {s}");
        let mut mine: Vec<&Span> = v.of(a).into_iter().filter(|s| s.k == "h" && (s.id == base && !s.s.is_empty() || s.id > base && s.id < base + 1000)).collect();
        mine.sort_by_key(|s| s.n0);
        for s in v.spans.iter().filter(|s| s.k == "h" && s.actor != a && s.id >= base && s.id < base + 1000) {
            out.push(viol("stream-misdelivered", desc(&format!("message {} handled by actor {}", s.id, s.actor))));
        }
        // started, items in order, finished
        let seq: Vec<String> = mine.iter().map(|s| if s.s == "item" { (s.id - base).to_string() } else { s.s.clone() }).collect();
        let mut want = vec!["started".to_string()];
        want.extend((1..=n).map(|i| i.to_string()));
        if !forever {
            want.push("finished".into());
        }
        let produced: Vec<&Ev> = h.iter().filter(|e| e.k == "item" && e.w == 2000 + base).collect();
        if seq.len() > want.len() || seq[..] != want[..seq.len()] {
            out.push(viol("stream-order", desc(&format!("handled {seq:?}"))));
            continue;
        }
        let src_end = h.iter().find(|e| e.k == "srcend" && e.id == base);
        let src_drop = h.iter().find(|e| e.k == "srcdrop" && e.id == base);
        let stop = v.stop(a);
        let cause = v.first_cause(a).is_some() || !v.spawn.contains_key(&a);
        if v.end == 0 {
            continue;
        }
        let gone = v.gone(a).is_some();
        if !gone && v.spawn.contains_key(&a) && v.start_ok(a).is_some() && seq.len() != want.len() {
            out.push(viol("stream-items-lost", desc(&format!("only {seq:?} handled although the actor still runs"))));
        }
        // a stream that ended before the actor was asked to end was delivered completely
        if let (Some(e), false) = (src_end, v.killed(a) || v.failed(a) || may_drop_messages(v, a)) {
            let stop_req = v.first_op("stop", a).map(|o| o.n).unwrap_or(u64::MAX);
            if e.n < stop_req && e.a == OK && !forever && seq.len() != want.len() {
                out.push(viol("stream-items-lost", desc(&format!("only {seq:?} handled although the stream had ended before the actor stopped"))));
            }
        }
        match src_end {
            Some(e) if e.a == PANICKED => out.push(viol("stream-task-panicked", desc(&e.s))),
            Some(e) if e.a == NOT_RUNNING && !cause && stop.is_none() => out.push(viol("stream-ended-early", desc("its task failed with 'actor not running' although nothing ended the actor"))),
            Some(e) if e.a == NONE => out.push(viol("stream-ended-early", desc(&format!("its task failed with {}", e.s)))),
            Some(e) if e.a == OK && (forever || (produced.len() as i64) < n) && stop.is_none() && !gone => {
                out.push(viol("stream-ended-early", desc("its task returned although the stream had not finished and the actor runs")))
            }
            None if gone => out.push(viol("stream-outlives-actor", desc("its task still runs although the actor is gone"))),
            None if !forever && v.start_ok(a).is_some() && !gone => out.push(viol("stream-never-finished", desc("its task never returned"))),
            _ => {}
        }
        if src_end.is_some() && src_drop.is_none() {
            out.push(viol("stream-not-dropped", desc("the stream itself was never dropped")));
        }
        for p in produced {
            let d = v.mdrop.get(&p.id).map(|d| d.len()).unwrap_or(0);
            if d > 1 {
                out.push(viol("stream-item-duplicated", desc(&format!("item {} destroyed {d} times", p.id - base))));
            }
            if d == 0 && gone {
                out.push(viol("stream-item-leaked", desc(&format!("item {} is still held after the actor and the stream task are gone", p.id - base))));
            }
        }
        // the running stream keeps the actor alive
        if let Some(s) = stop {
            let end = src_end.map(|e| e.n).unwrap_or(u64::MAX);
            let fin = mine.iter().find(|x| x.s == "finished").map(|x| x.n0).unwrap_or(end.min(src_drop.map(|e| e.n).unwrap_or(u64::MAX)));
            if at.n < s.n0 && s.n0 < fin && s.s == "normal" && v.first_op("stop", a).map_or(true, |o| o.n > s.n0) && !v.failed(a) && !v.link_hit(a) {
                out.push(viol("stopped-with-stream-attached", desc(&format!("the actor stopped at event {} while the stream was running", s.n0))));
            }
        }
    }
    out
}

// ---- C19 -----------------------------------------------------------------------------------------

fn gen19(r: &mut Rng) -> Scenario {
    let mut g = G::new(r);
    let n = g.r.range(2, 4) as usize;
    let mut actors = vec![];
    for _ in 0..n {
        let mut a = ActorSpec { cap: g.cap(), how: g.spawn_how(true), ..Default::default() };
        if g.r.pct(30) {
            a.cap = Some(1);
        }
        a.start = g.pause();
        a.late = matches!(a.how, SpawnHow::Prepared | SpawnHow::Run) && g.r.pct(20);
        a.stop_body = g.pause();
        a.panic_hook = *g.r.pick(&[PanicHook::Default, PanicHook::Continue, PanicHook::Continue]);
        actors.push(a);
    }
    // forwards go to later actors, so that full mailboxes cannot wait for each other in a circle
    let fault = g.r.pct(50);
    let mut tasks = vec![];
    for t in 0..g.r.range(1, 4) {
        let thread = g.r.pct(20);
        let mut ops = vec![];
        if t == 0 {
            for (i, a) in actors.iter().enumerate() {
                if a.late {
                    ops.extend(g.pause());
                    ops.push(Op::Spawn(i));
                }
            }
        }
        ops.extend(g.pause());
        for _ in 0..g.r.range(2, 8) {
            let to = g.r.below(n as u64) as usize;
            let fh = |g: &mut G, t: usize| {
                if actors[t].cap.is_none() && g.r.pct(25) {
                    FwdHow::Block
                } else if g.r.pct(40) {
                    FwdHow::Try
                } else {
                    FwdHow::Async
                }
            };
            match g.r.below(100) {
                0..=69 => {
                    let mut how = if thread { g.how_thread() } else { g.how_async() };
                    if !how.is_ask() && g.r.pct(70) {
                        how = if thread { How::BlockAsk } else { *g.r.pick(&[How::Ask, How::Enq, How::TryAsk]) };
                    }
                    let mut m = g.plain();
                    let later = |g: &mut G, a: usize| g.r.range(a as u64 + 1, n as u64 - 1) as usize;
                    m.kind = match g.r.below(10) {
                        0..=3 => Kind::Deleg(*g.r.pick(&[DelegHow::Now, DelegHow::Task(0), DelegHow::Task(5), DelegHow::Drop, DelegHow::Stash, DelegHow::Stash])),
                        4..=6 if to + 1 < n => {
                            let t1 = later(&mut g, to);
                            let f = fh(&mut g, t1);
                            Kind::Fwd(t1, f)
                        }
                        7..=8 if to + 2 < n => {
                            let t1 = g.r.range(to as u64 + 1, n as u64 - 2) as usize;
                            let t2 = later(&mut g, t1);
                            let (f1, f2) = (fh(&mut g, t1), fh(&mut g, t2));
                            Kind::Fwd2(t1, f1, t2, f2)
                        }
                        _ => Kind::Plain,
                    };
                    if g.r.pct(25) {
                        m.end = if g.r.pct(70) { End::Err } else { End::Panic };
                    }
                    if g.r.pct(30) {
                        m.body.insert(0, Op::Unstash { fwd: false });
                    }
                    if g.r.pct(15) {
                        m.body.push(Op::Sleep(g.r.range(1, 20)));
                    }
                    let mut o = g.send(to, how, m);
                    if let Op::Send { cx, rt, .. } = &mut o {
                        if how == How::Ask && g.r.pct(8) {
                            *cx = Some(g.r.below(8));
                        } else if how == How::Ask && g.r.pct(10) {
                            *rt = Some(g.r.range(1, 15));
                        }
                    }
                    ops.push(o);
                }
                70..=74 => ops.push(Op::Collect),
                75..=84 if fault => {
                    let m = {
                        let mut m = g.plain();
                        m.end = *g.r.pick(&[End::Err, End::Panic]);
                        m
                    };
                    ops.push(match g.r.below(3) {
                        0 => Op::Stop { to, recipient: false },
                        1 => Op::Kill { to, recipient: false },
                        _ => g.send(to, if thread { How::BlockTell } else { How::Tell }, m),
                    });
                }
                _ => {
                    let p = g.pause();
                    ops.extend(p);
                }
            }
        }
        tasks.push(TaskSpec { thread, ops });
    }
    sc(actors, tasks)
}

/// kind of every message, by id
fn kinds(ops: &[Op], out: &mut HashMap<i64, Kind>) {
    for o in ops {
        if let Op::Send { m, .. } = o {
            out.insert(m.id as i64, m.kind.clone());
            match &m.kind {
                Kind::Fwd(..) => {
                    out.insert(m.id as i64 + 500_000, Kind::Plain);
                }
                Kind::Fwd2(_, _, t, h) => {
                    out.insert(m.id as i64 + 500_000, Kind::Fwd(*t, *h));
                    out.insert(m.id as i64 + 1_000_000, Kind::Plain);
                }
                _ => {}
            }
            kinds(&m.body, out);
        }
    }
}

#[derive(Debug, PartialEq)]
enum Fate {
    /// (code, value, text) a reply was produced, at this event
    Reply(u64, i64, i64, String),
    /// it never will be, known from this event on
    Lost,
    /// still to come, held by a running actor or task
    Pending,
}

fn fate(v: &View, h: &[Ev], k: &HashMap<i64, Kind>, mid: i64, to: usize) -> Fate {
    let Some(s) = v.hs(mid).first().copied() else {
        return if v.gone(to).is_some() { Fate::Lost } else { Fate::Pending };
    };
    match k.get(&mid) {
        Some(Kind::Deleg(how)) => {
            if let Some(d) = v.dreply.get(&mid).and_then(|d| d.first()) {
                return Fate::Reply(d.0, if d.2 == 0 { OK } else { HANDLER }, d.3, String::new());
            }
            if v.ddrop.contains_key(&mid) || s.cut || s.code == 2 {
                return Fate::Lost;
            }
            if *how == DelegHow::Stash && v.stop(to).is_some() {
                return Fate::Lost;
            }
            Fate::Pending
        }
        Some(Kind::Fwd(t, _)) | Some(Kind::Fwd2(t, ..)) => {
            match h.iter().find(|e| e.k == "fret" && e.id == mid) {
                Some(e) if e.a == 1 => fate(v, h, k, mid + 500_000, *t),
                Some(e) => {
                    if s.cut || s.n1.is_none() {
                        return Fate::Pending;
                    }
                    let c = if e.s.contains("ActorNotRunning") {
                        NOT_RUNNING
                    } else if e.s.contains("MailboxFull") {
                        FULL
                    } else {
                        -1
                    };
                    Fate::Reply(s.n1.unwrap(), HANDLER, mid + 500_000, format!("fwd:{c}"))
                }
                None if s.cut || s.code == 2 => Fate::Lost,
                None => Fate::Pending,
            }
        }
        _ => match (s.done(), s.code) {
            (true, 0) => Fate::Reply(s.n1.unwrap(), OK, s.val, String::new()),
            (true, 1) => Fate::Reply(s.n1.unwrap(), HANDLER, s.val, String::new()),
            (true, _) => Fate::Lost,
            _ if s.cut => Fate::Lost,
            _ => Fate::Pending,
        },
    }
}

fn judge19(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    let mut k = HashMap::new();
    for t in &sc.tasks {
        kinds(&t.ops, &mut k);
    }
    for (mid, s) in &v.handled {
        if s.len() > 1 {
            out.push(viol("handled-twice", format!("message {mid} was handled {} times", s.len())));
        }
    }
    for (mid, d) in &v.dreply {
        if d.len() > 1 {
            out.push(viol("replied-twice", format!("message {mid}")));
        }
    }
    for o in v.sends() {
        let a = o.actor as usize;
        let hs = v.hs(o.mid);
        let dnone = h.iter().any(|e| e.k == "dnone" && e.id == o.mid);
        if o.is_ask() && dnone {
            out.push(viol("reply-obligation-missing", format!("{}: its handler got no reply sender", describe(o))));
        }
        if !o.is_ask() {
            if let Some(Kind::Deleg(d)) = k.get(&o.mid) {
                if *d != DelegHow::Now && hs.iter().any(|s| s.done() && s.code == 3) && !dnone {
                    out.push(viol("reply-sender-for-tell", describe(o)));
                }
            }
            continue;
        }
        let f = fate(v, h, &k, o.mid, a);
        match (&o.ret, &f) {
            (Some(r), _) if r.code == PANICKED => out.push(viol("ask-panicked", describe(o))),
            (Some(r), Fate::Reply(n, c, val, s)) if matches!(r.code, OK | HANDLER) => {
                if r.code != *c || r.val != *val || (!s.is_empty() && r.s != *s) || (s.is_empty() && !r.s.is_empty()) || *n > r.n {
                    out.push(viol("wrong-reply", format!("{}; expected {:?}", describe(o), f)));
                }
            }
            (Some(r), _) if matches!(r.code, OK | HANDLER) => out.push(viol("wrong-reply", format!("{}; no reply was produced ({f:?})", describe(o)))),
            (Some(r), Fate::Reply(n, ..)) if r.code == STOPPED && *n < r.n => out.push(viol("reply-lost", format!("{}; expected {:?}", describe(o), f))),
            (Some(r), Fate::Pending) if r.code == STOPPED && v.end != 0 && v.gone(a).is_none() => {
                // dropped with nobody responsible
                out.push(viol("reply-lost", format!("{}; the reply was still owed", describe(o))))
            }
            (None, Fate::Reply(..) | Fate::Lost) if hangs(v, sc).iter().any(|x| x.uid == o.uid) => out.push(viol("ask-hangs", format!("{}; {:?}", describe(o), f))),
            _ => {}
        }
        if o.rejected() && !hs.is_empty() {
            out.push(viol("failed-send-handled", describe(o)));
        }
    }
    // forwards themselves
    for e in h.iter().filter(|e| e.k == "fret") {
        let (mid, inner) = (e.id, e.id + 500_000);
        let Some(inv) = h.iter().find(|x| x.k == "finv" && x.id == mid) else { continue };
        let to = inv.a as usize;
        let d = format!("message {mid} forwarded ({}) to actor {to}: {}", inv.s, e.s);
        if e.a == 1 {
            let ended = v.gone(to).is_some() || v.killed(to) || !v.spawn.contains_key(&to) || v.start_ok(to).is_none();
            if v.end != 0 && !ended && v.hs(inner).is_empty() && v.first_cause(to).is_none() {
                out.push(viol("forward-lost", d.clone()));
            }
        } else {
            if !v.hs(inner).is_empty() {
                out.push(viol("failed-forward-handled", d.clone()));
            }
            if e.s.contains("ActorNotRunning") && !v.first_cause(to).map(|c| c < e.n).unwrap_or(false) {
                out.push(viol("forward-refused", d.clone()));
            }
            if e.s.contains("MailboxFull") && (inv.s != "Try" || sc.actors[to].cap.is_none()) {
                out.push(viol("forward-refused", d.clone()));
            }
            if e.s.contains("ActorStopped") || e.s.contains("Timeout") {
                out.push(viol("forward-refused", d.clone()));
            }
        }
        let drops = v.mdrop.get(&inner).map(|d| d.len()).unwrap_or(0);
        if drops > 1 {
            out.push(viol("message-duplicated", format!("{d}: destroyed {drops} times")));
        }
    }
    out
}
