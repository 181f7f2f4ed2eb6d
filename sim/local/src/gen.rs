//! Workload generation.
use crate::world::*;
use simrt::Rng;

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub next: u64,
}
impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        G { r, next: 0 }
    }
    pub fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    pub fn cap(&mut self) -> Option<usize> {
        *self.r.pick(&[None, None, Some(1), Some(2), Some(3), Some(8), Some(64)])
    }
    /// something that takes (virtual or scheduling) time
    pub fn pause(&mut self) -> Vec<Op> {
        match self.r.below(6) {
            0 | 1 => vec![],
            2 => vec![Op::Yield(self.r.range(1, 4) as u32)],
            3 => vec![Op::Sleep(self.r.range(1, 3))],
            4 => vec![Op::Sleep(self.r.range(1, 20))],
            _ => vec![Op::Yield(1), Op::Sleep(self.r.range(1, 5))],
        }
    }
    pub fn plain(&mut self) -> MsgSpec {
        let body = self.pause();
        MsgSpec { id: self.id(), kind: Kind::Plain, body, end: End::Ok }
    }
    pub fn how_async(&mut self) -> How {
        *self.r.pick(&[How::Tell, How::Tell, How::TryTell, How::Ask, How::TryAsk, How::Enq, How::TryEnq])
    }
    pub fn how_thread(&mut self) -> How {
        *self.r.pick(&[How::Tell, How::TryTell, How::Ask, How::Enq, How::BlockTell, How::BlockTell, How::BlockAsk, How::BlockEnq])
    }
    pub fn send(&mut self, to: usize, how: How, m: MsgSpec) -> Op {
        let recipient = self.r.pct(20);
        Op::Send { to, how, mt: None, rt: None, cx: None, recipient, m }
    }
    pub fn spawn_how(&mut self, thread_ok: bool) -> SpawnHow {
        match self.r.below(10) {
            0..=4 => SpawnHow::Plain,
            5 | 6 => SpawnHow::Prepared,
            7 => SpawnHow::Run,
            _ if thread_ok => SpawnHow::Thread,
            _ => SpawnHow::Plain,
        }
    }
}

fn count(ops: &[Op]) -> usize {
    ops.iter()
        .map(|o| {
            1 + match o {
                Op::Send { m, .. } => count(&m.body),
                _ => 0,
            }
        })
        .sum()
}
fn filter(ops: &[Op], keep: &[bool], i: &mut usize) -> Vec<Op> {
    let mut out = vec![];
    for o in ops {
        let k = keep.get(*i).copied().unwrap_or(true);
        *i += 1;
        match o {
            Op::Send { to, how, mt, rt, cx, recipient, m } => {
                let mut m = m.clone();
                m.body = filter(&m.body, keep, i);
                if k {
                    out.push(Op::Send { to: *to, how: *how, mt: *mt, rt: *rt, cx: *cx, recipient: *recipient, m });
                }
            }
            o => {
                if k {
                    out.push(o.clone())
                }
            }
        }
    }
    out
}

pub fn atoms(sc: &Scenario) -> usize {
    sc.tasks.iter().map(|t| count(&t.ops)).sum::<usize>()
        + sc.actors.iter().map(|a| count(&a.start) + count(&a.panic_body) + count(&a.link_body) + count(&a.stop_body)).sum::<usize>()
}
pub fn keep(sc: &Scenario, k: &[bool]) -> Scenario {
    let mut s = sc.clone();
    let mut i = 0;
    for t in &mut s.tasks {
        t.ops = filter(&t.ops, k, &mut i);
    }
    for a in &mut s.actors {
        a.start = filter(&a.start, k, &mut i);
        a.panic_body = filter(&a.panic_body, k, &mut i);
        a.link_body = filter(&a.link_body, k, &mut i);
        a.stop_body = filter(&a.stop_body, k, &mut i);
    }
    s
}

/// Does any operation mention the actor?
fn uses(ops: &[Op], i: usize) -> bool {
    ops.iter().any(|o| match o {
        Op::Send { to, m, .. } => *to == i || uses(&m.body, i) || matches!(m.kind, Kind::Fwd(t, _) if t == i) || matches!(m.kind, Kind::Fwd2(t, _, u, _) if t == i || u == i),
        Op::Stop { to, .. } | Op::Kill { to, .. } | Op::WaitStart { to, .. } | Op::WaitStop { to, .. } | Op::Hold { to, .. } | Op::Upgrade { to, .. } | Op::Attach { to, .. } | Op::Reg { to, .. } | Op::Rx { to, .. } => *to == i,
        Op::Link { a, b, .. } | Op::Unlink { a, b, .. } => *a == i || *b == i,
        Op::Spawn(t) | Op::Drop(t) | Op::DropMine(t) => *t == i,
        _ => false,
    })
}

pub fn simplify(sc: &Scenario) -> Vec<Scenario> {
    let mut out = vec![];
    // empty tasks away
    if sc.tasks.iter().any(|t| t.ops.is_empty()) && sc.tasks.len() > 1 {
        let mut s = sc.clone();
        s.tasks.retain(|t| !t.ops.is_empty());
        if !s.tasks.is_empty() {
            out.push(s);
        }
    }
    // the last actor, when nothing mentions it
    if sc.actors.len() > 1 {
        let l = sc.actors.len() - 1;
        let used = sc.tasks.iter().any(|t| uses(&t.ops, l)) || sc.actors[..l].iter().any(|a| uses(&a.start, l) || uses(&a.link_body, l) || uses(&a.panic_body, l) || uses(&a.stop_body, l));
        if !used {
            let mut s = sc.clone();
            s.actors.pop();
            out.push(s);
        }
    }
    for i in 0..sc.actors.len() {
        let a = &sc.actors[i];
        let mut put = |f: &dyn Fn(&mut ActorSpec)| {
            let mut s = sc.clone();
            f(&mut s.actors[i]);
            out.push(s);
        };
        if a.how != SpawnHow::Plain {
            put(&|a| a.how = SpawnHow::Plain);
        }
        if a.start_end != End::Ok {
            put(&|a| a.start_end = End::Ok);
        }
        if a.stop_end != End::Ok {
            put(&|a| a.stop_end = End::Ok);
        }
        if a.panic_hook != PanicHook::Default {
            put(&|a| a.panic_hook = PanicHook::Default);
        }
        if a.link_hook != LinkHook::Default {
            put(&|a| a.link_hook = LinkHook::Default);
        }
        if a.late {
            put(&|a| a.late = false);
        }
        if a.cap.is_some() {
            put(&|a| a.cap = None);
        }
    }
    for (i, t) in sc.tasks.iter().enumerate() {
        if t.thread {
            let mut s = sc.clone();
            s.tasks[i].thread = false;
            // blocking variants need a thread
            if !t.ops.iter().any(|o| matches!(o, Op::Send { how, .. } if how.blocking())) {
                for o in &mut s.tasks[i].ops {
                    if let Op::Link { block, .. } | Op::Unlink { block, .. } = o {
                        *block = false;
                    }
                }
                out.push(s);
            }
        }
        for (j, o) in t.ops.iter().enumerate() {
            let mut put = |o: Op| {
                let mut s = sc.clone();
                s.tasks[i].ops[j] = o;
                out.push(s);
            };
            match o {
                Op::Sleep(n) if *n > 1 => put(Op::Sleep(1)),
                Op::Yield(n) if *n > 1 => put(Op::Yield(1)),
                Op::Send { to, how, mt, rt, cx, recipient, m } => {
                    if *recipient {
                        put(Op::Send { to: *to, how: *how, mt: *mt, rt: *rt, cx: *cx, recipient: false, m: m.clone() });
                    }
                    if m.end != End::Ok {
                        let mut m = m.clone();
                        m.end = End::Ok;
                        put(Op::Send { to: *to, how: *how, mt: *mt, rt: *rt, cx: *cx, recipient: *recipient, m });
                    }
                    if m.kind != Kind::Plain {
                        let mut m = m.clone();
                        m.kind = Kind::Plain;
                        put(Op::Send { to: *to, how: *how, mt: *mt, rt: *rt, cx: *cx, recipient: *recipient, m });
                    }
                }
                _ => {}
            }
        }
    }
    out
}
