//! A node which bootstraps its swarm while its actors are already running (C31).
use crate::judge::{View, S};
use crate::net::{self, Host};
use crate::world::*;
use kameo::actor::{ActorID, ActorRef};
use kameo::error::BootstrapError;
use kameo::remote::ActorSwarm;
use libp2p::PeerId;
use serde::{Deserialize, Serialize};
use simrt::runner::{viol, Violation};
use simrt::{log, probe, Ev, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EOp {
    Link(u8, u8),
    Unlink(u8, u8),
    /// puts the actor's id and bytes aside
    Note(u8),
    /// compares everything put aside
    Check,
    Register(u8),
    Lookup(u8),
    LookupLocal(u8),
    Ask(u8),
    Kill(u8),
    Sleep(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Early {
    /// when each of those who bootstrap does so, ms
    pub boots: Vec<u32>,
    pub ops: Vec<Vec<EOp>>,
    /// all of them are threads of their own
    #[serde(default)]
    pub threads: bool,
}

fn ename(a: u8) -> String {
    format!("e{a}")
}

fn hash(id: &ActorID) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    id.hash(&mut h);
    h.finish()
}

async fn client(me: i64, ops: Vec<EOp>) {
    let lref = |a: u8| w(|w| w.actors[&(a as i64)].lref.clone());
    let mut set: HashSet<ActorID> = HashSet::new();
    let mut map: HashMap<ActorID, u8> = HashMap::new();
    let mut notes: Vec<(u8, ActorID, Vec<u8>, u64)> = vec![];
    for op in ops {
        match op {
            EOp::Link(a, b) | EOp::Unlink(a, b) => {
                if a == b {
                    continue;
                }
                let uid = next_uid();
                let link = matches!(op, EOp::Link(..));
                log("inv", me, uid, a as i64, 0, format!("{} b={b}", if link { "elink" } else { "eunlink" }));
                macro_rules! go {
                    ($x:expr, $y:expr) => {
                        if link {
                            $x.link($y).await
                        } else {
                            $x.unlink($y).await
                        }
                    };
                }
                match (lref(a), lref(b)) {
                    (LRef::A(x), LRef::A(y)) => go!(x, &y),
                    (LRef::A(x), LRef::O(y)) => go!(x, &y),
                    (LRef::O(x), LRef::A(y)) => go!(x, &y),
                    (LRef::O(x), LRef::O(y)) => go!(x, &y),
                }
                log("ret", me, uid, OK, 0, "");
            }
            EOp::Note(a) => {
                let id = lref(a).id();
                set.insert(id);
                map.insert(id, a);
                notes.push((a, id, id.to_bytes(), hash(&id)));
            }
            EOp::Check => {
                for (a, old, bytes, _) in &notes {
                    let id = lref(*a).id();
                    let decoded = ActorID::from_bytes(bytes).ok();
                    let again = ActorID::from_bytes(&id.to_bytes()).ok();
                    let good = [
                        ("equal", *old == id),
                        ("set", set.contains(&id) && set.contains(old)),
                        ("map", map.get(&id) == Some(a)),
                        ("hash", hash(old) == hash(&id)),
                        ("bytes", decoded == Some(id)),
                        ("again", again == Some(id) && again.is_some_and(|x| hash(&x) == hash(&id))),
                    ];
                    log("id", *a as i64, 0, good.iter().all(|g| g.1) as i64, 0, good.iter().filter(|g| !g.1).map(|g| g.0).collect::<Vec<_>>().join(" "));
                }
            }
            EOp::Register(a) => {
                register(me, a as i64, ename(a)).await;
            }
            EOp::Lookup(a) => {
                let other = w(|w| w.actors[&(a as i64)].spec.other);
                lookup(me, &ename(a), other, "lookup").await;
            }
            EOp::LookupLocal(a) => {
                let uid = next_uid();
                log("inv", me, uid, 0, 0, format!("local {}", ename(a)));
                let r = match ActorRef::<Act>::lookup(&ename(a)).await {
                    Ok(Some(r)) => (FOUND, label(&r.id())),
                    Ok(None) => (NONE, -1),
                    Err(e) => (reg_code(&e), -1),
                };
                log("ret", me, uid, r.0, r.1, "");
            }
            EOp::Ask(a) => {
                let uid = next_uid();
                log("inv", me, uid, a as i64, 0, "easks");
                let m = Req { odd: crate::world::odd(uid), uid, delay: 1, kind: 0, payload: payload(uid, 8), rich: crate::world::rich(uid, 0), trap: crate::world::Trap(0) };
                let r = match lref(a) {
                    LRef::A(x) => x.ask(m).send().await.ok(),
                    LRef::O(x) => x.ask(m).send().await.ok(),
                };
                log("ret", me, uid, if r.is_some() { OK } else { STOPPED }, r.is_some_and(|r| r.actor == a as i64) as i64, "");
            }
            EOp::Kill(a) => kill(me, a as i64),
            EOp::Sleep(x) => ms(x as u64).await,
        }
    }
}

fn kill(me: i64, a: i64) {
    let (l, node) = w(|w| (w.actors[&a].lref.clone(), w.actors[&a].node));
    log("end", me, 0, a, node as i64, "kill");
    match l {
        LRef::A(a) => a.kill(),
        LRef::O(a) => a.kill(),
    }
}

pub async fn run(sc: Scenario) {
    let early = sc.early.clone().unwrap();
    let _ = kameo::sim::CURRENT_NODE.set(|| simrt::sim::current_node() as u64);
    *W.lock().unwrap() = Some(World::default());
    net::install(CALM.get());
    // all contenders bring their own identity, as `ActorSwarm::bootstrap` does
    let (node, kp) = prepare(0, 0);
    for h in 1..sc.hosts {
        boot(h, 0, false).await;
    }
    for (i, a) in sc.actors.iter().enumerate() {
        spawn_actor(i as i64, a.clone(), a.host).await;
    }
    net::set_latency(sc.lat.get());
    log("go", 0, 0, 0, 0, "");
    let mut js = vec![];
    for (c, ops) in early.ops.iter().enumerate() {
        js.push(run_on(node, early.threads, client(c as i64, ops.clone())));
    }
    let peers: Vec<PeerId> = (0..early.boots.len()).map(|i| if i == 0 { kp.public().to_peer_id() } else { keypair(777_000 + i as u64).public().to_peer_id() }).collect();
    // whoever wins, this is who they are from then on
    w(|w| {
        let a: Vec<(u64, i64)> = w.actors.iter().filter(|a| a.1.host == 0).map(|(i, a)| (a.seq, *i)).collect();
        for p in &peers {
            for (seq, i) in &a {
                w.ids.insert((p.to_bytes(), *seq), *i);
            }
        }
    });
    let mut bs = vec![];
    for (i, at) in early.boots.iter().enumerate() {
        let kp = if i == 0 { kp.clone() } else { keypair(777_000 + i as u64) };
        let at = *at as u64;
        let losers: Vec<PeerId> = peers.iter().enumerate().filter(|p| p.0 != i).map(|p| *p.1).collect();
        bs.push(run_on(node, early.threads, async move {
            ms(at).await;
            let mine = kp.public().to_peer_id();
            log("boot", i as i64, 0, 0, 0, mine.to_string());
            match bootstrap(0, node, &kp) {
                Ok(s) => {
                    let peer: PeerId = *s.local_peer_id();
                    log("booted", i as i64, 0, 1, (peer == mine) as i64, peer.to_string());
                    w(|w| {
                        w.hosts.get_mut(&0).unwrap().peer = peer;
                        w.ids.retain(|k, _| k.0 == peer.to_bytes() || !losers.iter().any(|l| l.to_bytes() == k.0));
                    });
                    net::boot(0, node, peer);
                    let r = s.listen_on(net::addr(0 as Host)).await;
                    log("listens", i as i64, 0, r.is_ok() as i64, 0, "");
                }
                Err(BootstrapError::AlreadyBootstrapped(s, swarm)) => {
                    let got = ActorSwarm::get().map(|s| *s.local_peer_id());
                    log("booted", i as i64, 0, 0, (got == Some(*s.local_peer_id())) as i64, s.local_peer_id().to_string());
                    drop(swarm);
                }
                Err(e) => {
                    log("booted", i as i64, 0, 2, 0, format!("{e:?}"));
                }
            }
        }));
    }
    for j in bs {
        let _ = j.await;
    }
    for h in 1..sc.hosts {
        meet(0, h);
        dial(0, h, false);
    }
    for j in js {
        let _ = tokio::time::timeout(std::time::Duration::from_secs(400), j).await;
    }
    net::set_latency(CALM.get());
    ms(2500).await;
    log("settled", 0, 0, 0, 0, "");
    // and now as on any other node
    let mine: Vec<i64> = (0..sc.actors.len() as i64).filter(|i| sc.actors[*i as usize].host == 0).collect();
    for i in &mine {
        let i = *i;
        let other = sc.actors[i as usize].other;
        let _ = on(node, async move { register(-3, i, format!("l{i}")).await }).await;
        for h in 0..sc.hosts {
            let n = w(|w| w.hosts[&h].node);
            let _ = on(n, async move {
                lookup(-3, &format!("l{i}"), other, "late-lookup").await;
                request(-3, i, true, false, None, None, 0, 0, 16, "late").await;
            })
            .await;
        }
    }
    let theirs: Vec<i64> = (0..sc.actors.len() as i64).filter(|i| sc.actors[*i as usize].host != 0).collect();
    for t in &theirs {
        let n = w(|w| w.actors[t].node);
        for i in &mine {
            let (t, i) = (*t, *i);
            let _ = on(n, async move { link_op(-3, t, i, true, false).await }).await;
        }
    }
    ms(500).await;
    log("kills", 0, 0, 0, 0, "");
    for i in &mine {
        let i = *i;
        let _ = on(node, async move { kill(-3, i) }).await;
        ms(800).await;
    }
    ms(2000).await;
    log("over", 0, 0, 0, 0, "");
    probe("bootstrapped late");
}

pub fn gen(r: &mut Rng) -> Scenario {
    let hosts = r.range(2, 3) as u8;
    let n = r.range(2, 4) as u8;
    let actors = (0..n + 1)
        .map(|i| ASpec {
            host: if i < n { 0 } else { 1 + r.below(hosts as u64 - 1) as u8 },
            other: r.pct(30),
            cap: if r.pct(50) { Some(r.range(1, 3) as u32) } else { None },
            tough: true,
            slow_hook: 0,
            unregistered: true,
            mortal: false,
            thread: false,
        })
        .collect();
    let threads = r.pct(35);
    let contenders = if threads { r.range(1, 4) } else { *r.pick(&[1u64, 1, 2, 3]) };
    let at = *r.pick(&[0u32, 3, 40]);
    let boots = (0..contenders).map(|_| at + if r.pct(60) { 0 } else { r.below(20) as u32 }).collect();
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        let mut l = vec![];
        for _ in 0..r.range(2, 12) {
            let (a, b) = (r.below(n as u64) as u8, r.below(n as u64) as u8);
            l.push(match r.weighted(&[25, 15, 12, 10, 6, 5, 4, 6, 3, 20]) {
                0 => EOp::Link(a, b),
                1 => EOp::Unlink(a, b),
                2 => EOp::Note(a),
                3 => EOp::Check,
                4 => EOp::Register(a),
                5 => EOp::Lookup(a),
                6 => EOp::LookupLocal(a),
                7 => EOp::Ask(a),
                8 => EOp::Kill(a),
                _ => EOp::Sleep(*r.pick(&[1, 2, 10, 30, 60])),
            });
        }
        l.push(EOp::Sleep(70));
        l.push(EOp::Check);
        ops.push(l);
    }
    let lat = if r.pct(60) { crate::gen::EASY } else { Lat { min: 1000, max: 20_000, spike: 0, chop: 100 } };
    Scenario { hosts, dials: vec![], mdns: vec![], lat, actors, clients: vec![], faults: vec![], rereg: false, evil: None, deaf: vec![], early: Some(Early { boots, ops, threads }), discover: None, threads: false }
}

pub fn judge(sc: &Scenario, v: &View, h: &[Ev]) -> Vec<Violation> {
    let mut out = vec![];
    crate::judge::common(v, &mut out);
    if !out.is_empty() {
        return out;
    }
    let early = sc.early.as_ref().unwrap();
    // one of those who bootstrap wins, with its identity
    let booted: Vec<&Ev> = h.iter().filter(|e| e.k == "booted").collect();
    let winners: Vec<&&Ev> = booted.iter().filter(|e| e.a == 1).collect();
    if booted.len() != early.boots.len() || winners.len() != 1 || winners[0].b != 1 {
        out.push(viol("bootstrap", format!("{} of {} bootstraps succeeded", winners.len(), booted.len())));
        return out;
    }
    for b in booted.iter().filter(|b| b.a != 1) {
        if b.a == 2 || b.b != 1 || b.s != winners[0].s {
            out.push(viol("bootstrap-error", format!("bootstrap {} failed with {}", b.w, b.s)));
        }
    }
    if !h.iter().any(|e| e.k == "listens" && e.a == 1) {
        out.push(viol("does-not-listen", "listen_on failed"));
    }
    let first = h.iter().find(|e| e.k == "boot").unwrap().n;
    let done = booted.iter().map(|e| e.n).min().unwrap();
    for e in h.iter().filter(|e| e.k == "id" && e.a != 1) {
        out.push(viol("id-changed", format!("id of actor {}: {}", e.w, e.s)));
    }
    for o in v.ops.iter().filter(|o| o.client >= 0) {
        let Some(r) = &o.ret else { continue };
        match o.verb() {
            "register" | "lookup" | "local" => {
                if (r.n < first && r.code != NOT_BOOTED) || (o.n > done && r.code == NOT_BOOTED) {
                    out.push(viol("not-bootstrapped-error", format!("{o:?}")));
                }
                let num: i64 = o.arg()[1..].parse().unwrap();
                if o.verb() != "register" && r.code == FOUND && r.val != num {
                    out.push(viol("wrong-actor", format!("{o:?}")));
                }
                if r.code == BAD {
                    out.push(viol("registry-error", format!("{o:?}")));
                }
            }
            "easks" => {
                let dead = v.actors[&o.a].cause.is_some_and(|c| c.0 < r.n);
                if (r.code != OK && !dead) || (r.code == OK && r.val != 1) {
                    out.push(viol("ask-failed", format!("{o:?}")));
                }
            }
            _ => {}
        }
    }
    let kills = h.iter().find(|e| e.k == "kills").map_or(u64::MAX, |e| e.n);
    for o in v.ops.iter().filter(|o| o.client == -3) {
        let Some(r) = &o.ret else { continue };
        let alive = v.actors.get(&o.a).is_none_or(|a| a.cause.is_none_or(|c| c.0 > kills));
        match o.verb() {
            "register" if alive && r.code != OK => out.push(viol("register-fails", format!("{o:?}"))),
            "late-lookup" => {
                let num: i64 = o.arg()[1..].parse().unwrap();
                if v.actors[&num].cause.is_none_or(|c| c.0 > kills) && (r.code != FOUND || r.val != num) {
                    out.push(viol("not-found", format!("{o:?}")));
                }
            }
            "late" if alive && (r.code != OK || r.val != 1) => out.push(viol("request-fails", format!("{o:?}"))),
            "link" => {
                let b = o.tag("b");
                if v.actors[&b].cause.is_some_and(|c| c.0 > kills) {
                    let told = v.died.iter().filter(|d| d.who == o.a && d.of == b).count();
                    if r.code != OK || told != 1 {
                        out.push(viol("remote-link", format!("{o:?}: told {told} times")));
                    }
                }
            }
            _ => {}
        }
    }
    // local links
    let mut pairs: BTreeMap<(i64, i64), Vec<&crate::judge::Rec>> = BTreeMap::new();
    for o in v.ops.iter().filter(|o| matches!(o.verb(), "elink" | "eunlink")) {
        let (a, b) = (o.a, o.tag("b"));
        pairs.entry((a.min(b), a.max(b))).or_default().push(o);
    }
    for d in &v.died {
        let known = |x: i64| v.actors.get(&x).is_some();
        if !known(d.of) || !known(d.who) {
            out.push(viol("unknown-actor-died", format!("{d:?}")));
        }
    }
    for x in 0..sc.actors.len() as i64 {
        for y in x + 1..sc.actors.len() as i64 {
            if sc.actors[x as usize].host != 0 || sc.actors[y as usize].host != 0 {
                continue;
            }
            let ops = pairs.get(&(x, y)).cloned().unwrap_or_default();
            let (cx, cy) = (v.actors[&x].cause, v.actors[&y].cause);
            let (Some(cx), Some(cy)) = (cx, cy) else { continue };
            // who ends first, and whether the other is there to be told
            let (dead, alive, c, other) = if cx.0 < cy.0 { (x, y, cx, cy) } else { (y, x, cy, cx) };
            if other.1 < c.1 + S / 10 {
                continue;
            }
            let last = ops.iter().filter(|o| o.n < c.0).max_by_key(|o| o.n);
            // what overlaps has no order
            let sure = ops.iter().all(|o| o.ret.as_ref().is_some_and(|r| r.n < c.0))
                && ops.windows(2).all(|p| p[0].ret.as_ref().is_some_and(|r| r.n < p[1].n));
            let told = v.died.iter().filter(|d| d.who == alive && d.of == dead).count();
            let back = v.died.iter().filter(|d| d.who == dead && d.of == alive).count();
            if told > 1 || back > 0 {
                out.push(viol("reported-twice", format!("{alive} was told {told} times that {dead} died, and {dead} {back} times about {alive}")));
            }
            if sure {
                let linked = last.is_some_and(|o| o.verb() == "elink");
                if linked != (told == 1) {
                    out.push(viol(if linked { "death-not-reported" } else { "reported-after-unlink" }, format!("{dead} died; {alive}; last {last:?}")));
                }
            }
        }
    }
    out
}
