mod discover;
mod early;
mod evil;
mod gen;
mod judge;
mod net;
mod world;

use judge::View;
use simrt::runner::{Check, MainFut, SimParams, Violation};
use simrt::{Ev, Rng};
use world::*;

struct P {
    id: &'static str,
    gen: fn(&mut Rng) -> Scenario,
    judge: fn(&Scenario, &View, &[Ev]) -> Vec<Violation>,
    nontrivial: fn(&View) -> bool,
    rule: &'static str,
    runs: u64,
}
static LIST: &[P] = &[
    P {
        id: "C24",
        gen: gen::c24,
        judge: |s, v, _| judge::c24(s, v),
        nontrivial: |v| v.ops.iter().filter(|o| o.verb() == "req" && o.ret.is_some()).count() >= 2,
        rule: "at least two remote requests completed; distinct by history and interleaving",
        runs: 6_000,
    },
    P {
        id: "C25",
        gen: gen::c25,
        judge: |s, v, _| judge::c25(s, v),
        nontrivial: |v| v.ops.iter().filter(|o| o.verb() == "req" && o.code() == Some(OK)).count() >= 2,
        rule: "at least two remote requests succeeded; distinct by history and interleaving",
        runs: 5_000,
    },
    P {
        id: "C26",
        gen: gen::c26,
        judge: |s, v, _| judge::c26(s, v),
        nontrivial: |v| v.ops.iter().any(|o| o.verb() == "lookup" && o.client >= 0 && o.ret.is_some()),
        rule: "at least one lookup by a client completed; distinct by history and interleaving",
        runs: 8_000,
    },
    P {
        id: "C27",
        gen: gen::c27,
        judge: |s, v, _| judge::c27(s, v),
        nontrivial: |v| v.ops.iter().any(|o| o.verb().starts_with("link") && o.code() == Some(OK)),
        rule: "at least one link between nodes was made; distinct by history and interleaving",
        runs: 8_000,
    },
    P {
        id: "C28",
        gen: gen::c28,
        judge: |s, v, _| judge::c28(s, v),
        nontrivial: |v| v.ops.iter().any(|o| o.verb() == "final" && o.code() == Some(OK)),
        rule: "hostile input was sent and requests were answered afterwards; distinct by history and interleaving",
        runs: 5_000,
    },
    P {
        id: "C31",
        gen: early::gen,
        judge: early::judge,
        nontrivial: |v| v.ops.iter().any(|o| o.client >= 0 && o.ret.is_some()),
        rule: "at least one operation of a client completed on the node which is bootstrapped late; distinct by history and interleaving",
        runs: 12_000,
    },
    P {
        id: "C34",
        gen: discover::gen,
        judge: discover::judge,
        nontrivial: |v| v.ops.iter().any(|o| o.verb() == "final" && o.code() == Some(world::OK) && v.actors.get(&o.a).is_some_and(|a| a.node != o.node)),
        rule: "an actor of another node was found and answered; distinct by history and interleaving",
        runs: 6_000,
    },
];

impl Check<Scenario> for P {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng) -> Scenario {
        let mut sc = (self.gen)(r);
        // (a thread cannot be unwound out of a node which crashes)
        let crash = sc.faults.iter().any(|f| matches!(f.1, world::Fault::Crash(_)));
        if sc.early.is_none() && !crash && r.pct(25) {
            sc.threads = true;
            for a in &mut sc.actors {
                a.thread = r.pct(40);
            }
        }
        sc
    }
    fn params(&self, sc: &Scenario, seed: u64, r: &mut Rng) -> SimParams {
        let mut p = SimParams { step_cap: 3_000_000, ..SimParams::swarm(seed, r) };
        if sc.threads || sc.early.as_ref().is_some_and(|e| e.threads) {
            p.preempt_pm = *r.pick(&[5, 30, 100, 200]);
        }
        p
    }
    fn run(&self, sc: Scenario) -> MainFut {
        Box::pin(run(sc))
    }
    fn judge(&self, sc: &Scenario, h: &[Ev]) -> Vec<Violation> {
        let mut out = (self.judge)(sc, &View::new(sc, h), h);
        for x in &mut out {
            x.class = format!("{}/{}", self.id, x.class);
        }
        out
    }
    fn nontrivial(&self, sc: &Scenario, h: &[Ev]) -> bool {
        (self.nontrivial)(&View::new(sc, h))
    }
    fn rule(&self) -> String {
        self.rule.into()
    }
    fn atoms(&self, sc: &Scenario) -> usize {
        sc.clients.iter().map(|c| c.1.len()).sum::<usize>() + sc.faults.len() + sc.dials.len() + sc.evil.as_ref().map_or(0, |e| e.acts.len())
            + sc.discover.as_ref().map_or(0, |d| d.links.len() + d.ops.iter().map(|o| o.1.len()).sum::<usize>())
            + sc.early.as_ref().map_or(0, |e| e.ops.iter().map(|o| o.len()).sum::<usize>() + e.boots.len() - 1)
    }
    fn keep(&self, sc: &Scenario, k: &[bool]) -> Scenario {
        let mut s = sc.clone();
        let mut i = 0;
        let mut on = || {
            i += 1;
            k.get(i - 1).copied().unwrap_or(true)
        };
        for c in &mut s.clients {
            c.1.retain(|_| on());
        }
        s.faults.retain(|_| on());
        s.dials.retain(|_| on());
        if let Some(e) = &mut s.evil {
            e.acts.retain(|_| on());
        }
        if let Some(e) = &mut s.early {
            for o in &mut e.ops {
                o.retain(|_| on());
            }
            let mut first = true;
            e.boots.retain(|_| std::mem::take(&mut first) || on());
        }
        if let Some(d) = &mut s.discover {
            d.links.retain(|_| on());
            for o in &mut d.ops {
                o.1.retain(|_| on());
            }
        }
        s
    }
    fn simplify(&self, sc: &Scenario) -> Vec<Scenario> {
        let mut out = vec![];
        for i in 0..sc.clients.len() {
            if sc.clients[i].1.is_empty() {
                let mut s = sc.clone();
                s.clients.remove(i);
                out.push(s);
            }
        }
        for (i, c) in sc.clients.iter().enumerate() {
            for (j, o) in c.1.iter().enumerate() {
                if let Op::GiveUp { op, .. } = o {
                    let mut s = sc.clone();
                    s.clients[i].1[j] = (**op).clone();
                    out.push(s);
                }
            }
        }
        if !sc.deaf.is_empty() {
            out.push(Scenario { deaf: vec![], ..sc.clone() });
        }
        if let Some(d) = &sc.discover {
            if d.idle > 0 {
                let mut s = sc.clone();
                s.discover.as_mut().unwrap().idle = 0;
                out.push(s);
            }
        }
        if sc.lat != gen::EASY {
            out.push(Scenario { lat: gen::EASY, ..sc.clone() });
        }
        let used = |h: u8| {
            sc.actors.iter().any(|a| a.host == h)
                || sc.clients.iter().any(|c| c.0 == h)
                || sc.dials.iter().any(|d| d.0 == h || d.1 == h)
                || sc.discover.as_ref().is_some_and(|d| d.links.iter().any(|l| l.1 == h || l.2 == h) || d.ops.iter().any(|o| o.0 == h && !o.1.is_empty()))
                || !sc.faults.is_empty()
        };
        if sc.hosts > 2 && !used(sc.hosts - 1) {
            let h = sc.hosts - 1;
            let mut s = sc.clone();
            s.hosts -= 1;
            s.mdns.retain(|d| d.0 != h && d.1 != h);
            if let Some(d) = &mut s.discover {
                d.ops.retain(|o| o.0 != h);
            }
            out.push(s);
        }
        out
    }
    fn runs(&self) -> u64 {
        self.runs
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["kameo (with feature remote): swarm, registry, links, remote requests, actors, mailboxes", "libp2p swarm, kademlia, request-response, multistream-select and CBOR codec", "tokio's timers and synchronisation"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network (QUIC sockets, replaced by an in-memory transport with independent ordered streams)", "mDNS discovery (fed by the harness)", "clock", "task scheduler's choices", "random numbers"]
    }
}

fn main() {
    simrt::runner::cli(LIST.iter().map(|p| p as &'static dyn Check<Scenario>).collect())
}
