//! Nodes which know each other by nothing but dials and added addresses (C34).
use crate::judge::{show, View, MS, S};
use crate::net::{self, Host};
use crate::world::*;
use kameo::remote::ActorSwarm;
use libp2p::swarm::dial_opts::DialOpts;
use serde::{Deserialize, Serialize};
use simrt::runner::{viol, Violation};
use simrt::{log, probe, Ev, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// the peer's id and its address are dialed
    Peer,
    /// nothing but the address is known
    Address,
    /// the address is told, and not dialed
    Added,
    /// the address is told and dialed
    Both,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DOp {
    Register(u8),
    Lookup(u8),
    Call(u8),
    Sleep(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Discover {
    /// when, from, to
    pub links: Vec<(u32, u8, u8, How)>,
    pub ops: Vec<(u8, Vec<DOp>)>,
    /// nodes which start to listen later: when, which
    #[serde(default)]
    pub listen: Vec<(u32, u8)>,
    /// before everything is looked up, ms
    pub idle: u32,
}

impl Default for How {
    fn default() -> How {
        How::Peer
    }
}

fn connect(from: u8, to: u8, how: &How) {
    let (node, peer) = w(|w| (w.hosts[&from].node, w.hosts[&to].peer));
    let addr = net::addr(to as Host);
    log("join", from as i64, to as i64, 0, 0, format!("{how:?}"));
    let how = how.clone();
    on(node, async move {
        let s = ActorSwarm::get().unwrap();
        if matches!(how, How::Added | How::Both) {
            s.add_peer_address(peer, addr.clone());
        }
        let _ = match how {
            How::Added => return,
            How::Peer => s.dial(DialOpts::peer_id(peer).addresses(vec![addr]).build()).await,
            How::Both => s.dial(peer).await,
            How::Address => s.dial(DialOpts::unknown_peer_id().address(addr).build()).await,
        };
    });
}

async fn client(me: i64, ops: Vec<DOp>) {
    for op in ops {
        match op {
            DOp::Register(a) => {
                register(me, a as i64, format!("n{a}")).await;
            }
            DOp::Lookup(a) | DOp::Call(a) => {
                let other = w(|w| w.actors[&(a as i64)].spec.other);
                let (code, found) = lookup(me, &format!("n{a}"), other, "lookup").await;
                if let (FOUND, Some(r), DOp::Call(_)) = (code, found, op) {
                    request(me, label(&r.id()), true, false, None, None, 0, 0, 8, "req").await;
                }
            }
            DOp::Sleep(x) => ms(x as u64).await,
        }
    }
}

pub async fn run(sc: Scenario) {
    let d = sc.discover.clone().unwrap();
    let _ = kameo::sim::CURRENT_NODE.set(|| simrt::sim::current_node() as u64);
    *W.lock().unwrap() = Some(World::default());
    net::install(CALM.get());
    for h in 0..sc.hosts {
        boot(h, 0, d.listen.iter().any(|l| l.1 == h)).await;
    }
    for (i, a) in sc.actors.iter().enumerate() {
        spawn_actor(i as i64, a.clone(), a.host).await;
    }
    net::set_latency(sc.lat.get());
    log("go", 0, 0, 0, 0, "");
    let mut js = vec![];
    for (c, (host, ops)) in d.ops.iter().enumerate() {
        let node = w(|w| w.hosts[host].node);
        js.push(run_on(node, sc.threads, client(c as i64, ops.clone())));
    }
    {
        enum Step<'a> {
            Listen(u8),
            Link(&'a (u32, u8, u8, How)),
            Fault(&'a Fault),
        }
        let mut todo: Vec<(u32, Step)> = vec![];
        todo.extend(d.listen.iter().map(|l| (l.0, Step::Listen(l.1))));
        todo.extend(d.links.iter().map(|l| (l.0, Step::Link(l))));
        todo.extend(sc.faults.iter().map(|f| (f.0, Step::Fault(&f.1))));
        todo.sort_by_key(|x| x.0);
        let mut t = 0;
        for (at, x) in todo {
            ms((at - t) as u64).await;
            t = at;
            match x {
                Step::Listen(h) => {
                    probe("listening late");
                    log("listen", h as i64, 0, 0, 0, "");
                    let node = w(|w| w.hosts[&h].node);
                    on(node, async move {
                        let _ = ActorSwarm::get().unwrap().listen_on(net::addr(h as Host)).await;
                    });
                }
                Step::Link(l) => connect(l.1, l.2, &l.3),
                Step::Fault(f) => {
                    let _ = fault(f, &sc);
                }
            }
        }
    }
    for j in js {
        let _ = tokio::time::timeout(std::time::Duration::from_secs(400), j).await;
    }
    for a in 0..sc.hosts {
        for b in a + 1..sc.hosts {
            net::heal(a as Host, b as Host);
        }
    }
    net::set_latency(CALM.get());
    log("calm", 0, 0, 0, 0, "");
    if !sc.faults.is_empty() {
        ms(13_000).await;
        for (_, a, b, how) in &d.links {
            connect(*a, *b, how);
        }
    }
    ms(1000).await;
    // an address which was added is used once there is something to do
    for h in 0..sc.hosts {
        let node = w(|w| w.hosts[&h].node);
        let _ = on(node, async move { lookup(-3, "nothing", false, "wake-lookup").await }).await;
    }
    ms(3000).await;
    if d.idle > 0 {
        probe("idle");
        ms(d.idle as u64).await;
    }
    log("settled", 0, 0, 0, 0, "");
    for h in 0..sc.hosts {
        let node = w(|w| w.hosts[&h].node);
        let idx = 50 + h as i64;
        spawn_actor(idx, ASpec { host: h, other: false, cap: None, tough: true, slow_hook: 0, unregistered: false, mortal: false, thread: false }, h).await;
        let _ = on(node, async move {
            for _ in 0..3 {
                if register(-3, idx, format!("s{h}")).await == OK {
                    break;
                }
                ms(2000).await;
            }
        })
        .await;
    }
    ms(1000).await;
    let mut js = vec![];
    let mut all: Vec<(i64, String, bool)> = (0..sc.hosts).map(|h| (50 + h as i64, format!("s{h}"), false)).collect();
    all.extend(sc.actors.iter().enumerate().map(|(i, a)| (i as i64, format!("n{i}"), a.other)));
    for h in 0..sc.hosts {
        let node = w(|w| w.hosts[&h].node);
        for (idx, name, other) in all.clone() {
            js.push(on(node, async move {
                for k in 0..4 {
                    if k > 0 {
                        ms(2000).await;
                    }
                    if lookup(-3, &name, other, "final-lookup").await.0 == FOUND {
                        break;
                    }
                }
                for k in 0..4 {
                    if k > 0 {
                        ms(2000).await;
                    }
                    if request(-3, idx, true, false, None, None, 0, 0, 16, "final").await == OK {
                        break;
                    }
                }
            }));
        }
    }
    for j in js {
        let _ = j.await;
    }
    ms(500).await;
    log("over", 0, 0, 0, 0, "");
}

pub fn gen(r: &mut Rng) -> Scenario {
    let hosts = r.range(2, 5) as u8;
    let n = r.range(1, 4);
    let actors: Vec<ASpec> = (0..n)
        .map(|_| ASpec { host: r.below(hosts as u64) as u8, other: r.pct(30), cap: if r.pct(50) { Some(r.range(1, 3) as u32) } else { None }, tough: true, slow_hook: 0, unregistered: true, mortal: false, thread: false })
        .collect();
    // a tree, and sometimes more
    let mut links = vec![];
    let span = *r.pick(&[1u64, 300, 4000]);
    let mut how = |r: &mut Rng| match r.weighted(&[40, 25, 20, 15]) {
        0 => How::Peer,
        1 => How::Address,
        2 => How::Added,
        _ => How::Both,
    };
    for b in 1..hosts {
        let a = r.below(b as u64) as u8;
        let (a, b) = if r.pct(50) { (a, b) } else { (b, a) };
        links.push((r.below(span) as u32, a, b, how(r)));
        if r.pct(20) {
            links.push((r.below(span) as u32, b, a, how(r)));
        }
    }
    for _ in 0..r.below(3) {
        let a = r.below(hosts as u64) as u8;
        let b = (a + 1 + r.below(hosts as u64 - 1) as u8) % hosts;
        links.push((r.below(span) as u32, a, b, how(r)));
    }
    // some listen later, and only then others dial them
    let mut listen = vec![];
    if r.pct(30) {
        for h in 0..hosts {
            if r.pct(40) {
                let at = *r.pick(&[1, 50, 400, 3000, 9000]);
                listen.push((at, h));
                for l in links.iter_mut().filter(|l| l.2 == h) {
                    l.0 += at + 100;
                }
            }
        }
    }
    let mut ops = vec![];
    for h in 0..hosts {
        let own: Vec<u8> = (0..n as u8).filter(|i| actors[*i as usize].host == h).collect();
        let mut l = vec![];
        if r.pct(70) {
            for a in &own {
                if r.pct(50) {
                    l.push(DOp::Sleep(*r.pick(&[1, 100, 1000, 6000])));
                }
                l.push(DOp::Register(*a));
            }
        }
        for _ in 0..r.below(4) {
            let a = r.below(n) as u8;
            l.push(match r.below(3) {
                0 => DOp::Lookup(a),
                1 => DOp::Call(a),
                _ => DOp::Sleep(*r.pick(&[1, 100, 1000, 6000])),
            });
        }
        if r.pct(70) {
            l.extend(own.iter().filter(|_| r.pct(30)).map(|a| DOp::Register(*a)));
        }
        ops.push((h, l));
    }
    let idle = if r.pct(30) { *r.pick(&[20_000, 61_000, 70_000, 200_000]) } else { 0 };
    let mut sc = Scenario { hosts, dials: vec![], mdns: vec![], lat: crate::gen::lat(r, true), actors, clients: vec![], faults: vec![], rereg: false, evil: None, deaf: vec![], early: None, discover: None, threads: false };
    if r.pct(40) {
        sc.lat = crate::gen::lat(r, false);
        crate::gen::faults(r, &mut sc, 5000, 4, false);
        sc.faults.retain(|f| !matches!(f.1, Fault::Dial(..)));
    }
    sc.discover = Some(Discover { links, ops, listen, idle });
    sc
}

pub fn judge(sc: &Scenario, v: &View, _: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    crate::judge::common(v, &mut out);
    let d = sc.discover.as_ref().unwrap();
    // all have met; minimised scenarios may not
    let mut group: Vec<u8> = (0..sc.hosts).collect();
    for _ in 0..sc.hosts {
        for (_, a, b, _) in &d.links {
            let g = group[*a as usize].min(group[*b as usize]);
            group[*a as usize] = g;
            group[*b as usize] = g;
        }
    }
    let host = |node: i64| v.host(node) as usize;
    let regs: Vec<_> = v.ops.iter().filter(|o| o.verb() == "register").collect();
    let easy = sc.faults.is_empty() && sc.lat.spike == 0;
    // by then all dials have succeeded
    let met = v.go + d.links.iter().map(|l| l.0 as u64).chain(d.listen.iter().map(|l| l.0 as u64)).max().unwrap_or(0) * MS + 5 * S;
    let dialed = |h: usize| d.links.iter().any(|l| l.3 != How::Added && (l.1 as usize == h || l.2 as usize == h));
    let all_dialed = d.links.iter().all(|l| l.3 != How::Added);
    for o in &regs {
        let Some(r) = &o.ret else { continue };
        let h = host(o.node);
        if r.code != OK && o.client == -3 {
            let last = regs.iter().rev().find(|x| x.client == -3 && x.a == o.a).unwrap();
            if group.iter().filter(|g| **g == group[h]).count() > 1 && last.code() != Some(OK) {
                out.push(viol("register-failed", show(o)));
            }
        }
        if r.code != OK && o.client >= 0 && easy && o.t > met && dialed(h) {
            out.push(viol("register-failed", show(o)));
        }
    }
    let mut ok = std::collections::BTreeSet::new();
    for o in v.ops.iter().filter(|o| matches!(o.verb(), "lookup" | "final-lookup")) {
        let Some(r) = &o.ret else { continue };
        let Some(a) = regs.iter().filter(|g| g.arg() == o.arg() && g.n < r.n).map(|g| g.a).next() else {
            if r.code == FOUND {
                out.push(viol("unrelated-actor", show(o)));
            }
            continue;
        };
        if r.code == FOUND && r.val != a {
            out.push(viol("unrelated-actor", show(o)));
        }
        if r.code == FOUND && o.client == -3 {
            ok.insert((o.node, a));
        }
        if o.client >= 0 && r.code != FOUND && easy && all_dialed && o.t > met && regs.iter().any(|g| g.a == a && g.ret.as_ref().is_some_and(|x| x.t + 3 * S < o.t)) && group[host(o.node)] == group[v.actors[&a].host as usize] {
            out.push(viol("not-found", show(o)));
        }
    }
    let done: std::collections::BTreeSet<(i64, i64)> = v.ops.iter().filter(|o| o.verb() == "final" && o.code() == Some(OK)).map(|o| (o.node, o.a)).collect();
    for o in v.ops.iter().filter(|o| o.verb() == "final-lookup") {
        if o.ret.is_none() || v.over.is_none() {
            continue;
        }
        let Some(g) = regs.iter().find(|g| g.arg() == o.arg()) else { continue };
        let together = group[host(o.node)] == group[v.actors[&g.a].host as usize];
        if together && !ok.contains(&(o.node, g.a)) {
            out.push(viol("not-found", show(o)));
            break;
        }
        if together && !done.contains(&(o.node, g.a)) {
            out.push(viol("not-reached", show(o)));
            break;
        }
    }
    out
}
