//! Scenarios for C24 to C28.
use crate::evil::{Act, Id, Mangle, Pay, Val, MINE};
use crate::world::*;
use simrt::Rng;

pub const EASY: Lat = Lat { min: 200, max: 3000, spike: 0, chop: 0 };

pub fn lat(r: &mut Rng, calm: bool) -> Lat {
    let (min, max) = *r.pick(&[(100, 100), (200, 3000), (1000, 20_000), (5_000, 60_000), (20_000, 250_000)]);
    Lat { min, max, spike: if calm { 0 } else { *r.pick(&[0, 0, 3, 20]) }, chop: *r.pick(&[0, 0, 100, 500]) }
}

fn base(r: &mut Rng, max_hosts: u64, actors: u64) -> Scenario {
    let hosts = r.range(2, max_hosts) as u8;
    let mut dials = vec![];
    let mut mdns = vec![];
    for a in 0..hosts {
        for b in a + 1..hosts {
            mdns.push((a, b));
            if r.pct(85) {
                dials.push(if r.pct(50) { (a, b) } else { (b, a) });
            }
            if r.pct(25) {
                dials.push(if r.pct(50) { (a, b) } else { (b, a) });
            }
        }
    }
    let n = r.range(1, actors);
    let actors = (0..n)
        .map(|_| ASpec {
            host: r.below(hosts as u64) as u8,
            other: r.pct(30),
            cap: if r.pct(50) { Some(r.range(1, 3) as u32) } else { None },
            tough: r.pct(50),
            slow_hook: if r.pct(20) { r.range(1, 300) as u32 } else { 0 },
            unregistered: false,
            mortal: false,
            thread: false,
        })
        .collect();
    Scenario { hosts, dials, mdns, lat: lat(r, false), actors, clients: vec![], faults: vec![], rereg: r.pct(50), evil: None, deaf: vec![], early: None, discover: None, threads: false }
}

fn two(r: &mut Rng, n: u8) -> (u8, u8) {
    let a = r.below(n as u64) as u8;
    let b = (a + 1 + r.below(n as u64 - 1) as u8) % n;
    (a, b)
}

pub fn faults(r: &mut Rng, sc: &mut Scenario, span: u64, max: u64, crash: bool) {
    let n = r.below(max + 1);
    for _ in 0..n {
        let (a, b) = two(r, sc.hosts);
        let t = r.below(span) as u32;
        match r.weighted(&[3, 4, if crash { 2 } else { 0 }, 2, 2, 2]) {
            0 => {
                sc.faults.push((t, Fault::Partition(a, b)));
                let d = *r.pick(&[20u64, 300, 2000, 6000, 12_000]);
                sc.faults.push((t + (1 + r.below(d)) as u32, Fault::Heal(a, b)));
            }
            1 => sc.faults.push((t, Fault::Reset(a, b, r.pct(60)))),
            2 => {
                sc.faults.push((t, Fault::Crash(a)));
                if r.pct(60) {
                    sc.faults.push((t + r.range(10, 8000) as u32, Fault::Restart(a)));
                }
            }
            3 => sc.faults.push((t, Fault::Disconnect(a, b))),
            4 => sc.faults.push((t, Fault::Dial(a, b))),
            _ => {
                let l = lat(r, false);
                sc.faults.push((t, Fault::Net(l)))
            }
        }
    }
}

fn req(r: &mut Rng, actors: u64, nowait: u64) -> Op {
    let ask = r.pct(60);
    let immediate = r.pct(20);
    Op::Req {
        actor: r.below(actors) as u8,
        ask,
        immediate,
        mb: if r.pct(20) { Some(*r.pick(&[0, 5, 50, 400])) } else { None },
        rp: if ask && r.pct(25) { Some(*r.pick(&[0, 10, 100, 700])) } else { None },
        delay: *r.pick(&[0, 0, 0, 1, 10, 80, 400, 3000, 11_000]),
        kind: r.weighted(&[110, 18, 6, 2, 2, 2, 2, 2, 3]) as u8,
        len: *r.pick(&[0, 3, 40, 300, 5000, 90_000]),
        nowait: r.pct(nowait),
    }
}

/// Now and then the caller drops the operation.
fn hasty(r: &mut Rng, o: Op, pct: u64) -> Op {
    if !r.pct(pct) || matches!(o, Op::Sleep(_) | Op::Stop(_) | Op::Kill(_) | Op::GiveUp { .. }) {
        return o;
    }
    let op = match o {
        Op::Req { actor, ask, immediate, mb, rp, delay, kind, len, .. } => Op::Req { actor, ask, immediate, mb, rp, delay, kind, len, nowait: false },
        o => o,
    };
    Op::GiveUp { ms: *r.pick(&[0, 1, 3, 10, 40, 200, 1000]), nowait: r.pct(50), op: Box::new(op) }
}

/// Some hosts accept no connections.
fn deafen(r: &mut Rng, sc: &mut Scenario) {
    for h in 0..sc.hosts {
        if r.pct(50) {
            sc.deaf.push(h);
        }
    }
    let deaf = sc.deaf.clone();
    for d in &mut sc.dials {
        if deaf.contains(&d.1) {
            *d = (d.1, d.0);
        }
    }
}

pub fn c24(r: &mut Rng) -> Scenario {
    let mut sc = base(r, 4, 3);
    let hurry = *r.pick(&[0, 0, 10, 40]);
    let big = r.pct(8);
    if r.pct(6) {
        deafen(r, &mut sc);
    }
    let n = sc.actors.len() as u64;
    for _ in 0..r.range(1, 4) {
        let host = r.below(sc.hosts as u64) as u8;
        let mut ops = vec![];
        for _ in 0..r.range(1, 10) {
            ops.push(match r.weighted(&[80, 12, 3, 2]) {
                0 => {
                    let mut o = req(r, n, 40);
                    if let (Op::Req { len, .. }, true) = (&mut o, big && r.pct(20)) {
                        *len = 2_000_000;
                    }
                    hasty(r, o, hurry)
                }
                1 => Op::Sleep(*r.pick(&[1, 20, 200, 2000])),
                2 => Op::Stop(r.below(n) as u8),
                _ => Op::Kill(r.below(n) as u8),
            });
        }
        sc.clients.push((host, ops));
    }
    // a full mailbox, seen from the actor's own node or another one
    let busy = r.pct(12);
    if busy {
        let cap = r.range(1, 2) as u32;
        sc.actors[0].cap = Some(cap as _);
        let host = if r.pct(50) { sc.actors[0].host } else { r.below(sc.hosts as u64) as u8 };
        let mut ops = vec![];
        for _ in 0..cap + 1 + r.below(2) as u32 {
            ops.push(Op::Req { actor: 0, ask: r.pct(30), immediate: false, mb: None, rp: None, delay: 3000, kind: 0, len: 3, nowait: true });
        }
        ops.push(Op::Sleep(*r.pick(&[20, 200])));
        for _ in 0..r.range(2, 5) {
            let ask = r.pct(60);
            ops.push(Op::Req { actor: 0, ask, immediate: r.pct(50), mb: *r.pick(&[None, Some(0), Some(50)]), rp: *r.pick(&[None, Some(0), Some(100)]), delay: *r.pick(&[0, 10, 3000]), kind: 0, len: 3, nowait: r.pct(20) });
        }
        sc.clients.push((host, ops));
    }
    if r.pct(if busy { 25 } else { 75 }) {
        faults(r, &mut sc, 6000, 5, true);
    }
    sc
}

pub fn c25(r: &mut Rng) -> Scenario {
    let mut sc = base(r, 3, 2);
    let n = sc.actors.len() as u64;
    let hurry = *r.pick(&[0, 0, 10]);
    for _ in 0..r.range(1, 3) {
        let host = r.below(sc.hosts as u64) as u8;
        let mut ops = vec![];
        for _ in 0..r.range(3, 14) {
            let mut o = req(r, n, 10);
            if let Op::Req { delay, kind, ask, .. } = &mut o {
                *delay = (*delay).min(400);
                *kind = (*ask && *kind == 1) as u8;
            }
            ops.push(hasty(r, o, hurry));
        }
        sc.clients.push((host, ops));
    }
    if r.pct(60) {
        faults(r, &mut sc, 4000, 4, false);
    }
    sc
}

pub fn c26(r: &mut Rng) -> Scenario {
    let mut sc = base(r, 4, 4);
    sc.lat = lat(r, true);
    if r.pct(12) {
        deafen(r, &mut sc);
    }
    let n = sc.actors.len() as u64;
    let names = r.range(1, 3);
    let hurry = *r.pick(&[0, 0, 0, 15]);
    for a in &mut sc.actors {
        a.unregistered = r.pct(50);
    }
    for _ in 0..r.range(1, 3) {
        let host = r.below(sc.hosts as u64) as u8;
        let own: Vec<u8> = (0..n as u8).filter(|i| sc.actors[*i as usize].host == host).collect();
        let mut ops = vec![];
        for _ in 0..r.range(1, 8) {
            let name = r.below(names) as u8;
            let o = match r.weighted(&[25, 30, 15, 8, 14, 2, 15]) {
                6 => Op::Call { name, other: r.pct(30) },
                0 if !own.is_empty() => Op::Register { actor: *r.pick(&own), name },
                0 | 1 => Op::Lookup { name, wrong: r.pct(25) },
                2 => Op::LookupLocal { name },
                3 => Op::Unregister { name },
                4 => Op::Sleep(*r.pick(&[5, 100, 1000, 4000])),
                _ => Op::Stop(r.below(n) as u8),
            };
            ops.push(hasty(r, o, hurry));
        }
        sc.clients.push((host, ops));
    }
    if r.pct(40) {
        sc.lat = lat(r, false);
        faults(r, &mut sc, 5000, 4, true);
    }
    sc
}

pub fn c27(r: &mut Rng) -> Scenario {
    let mut sc = base(r, 3, 5);
    while sc.actors.len() < 2 {
        let a = sc.actors[0].clone();
        sc.actors.push(ASpec { host: (a.host + 1) % sc.hosts, ..a });
    }
    let mortal = *r.pick(&[0, 0, 30, 80]);
    for a in &mut sc.actors {
        a.cap = a.cap.map(|c| c + 1);
        a.mortal = r.pct(mortal);
    }
    let n = sc.actors.len() as u64;
    let hurry = *r.pick(&[0, 0, 0, 15]);
    let mut hosts: Vec<u8> = (0..sc.hosts).filter(|h| sc.actors.iter().any(|a| a.host == *h)).collect();
    if r.pct(30) {
        hosts.push(r.below(sc.hosts as u64) as u8);
    }
    for host in hosts {
        let own: Vec<u8> = (0..n as u8).filter(|i| sc.actors[*i as usize].host == host).collect();
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            let (a, b) = two(r, n as u8);
            let mine = if own.is_empty() { a } else { *r.pick(&own) };
            let o = match r.weighted(&[40, 12, 8, 4, 20, 6, 8, 6]) {
                0 => Op::Link { a: mine, b },
                1 => Op::Unlink { a: mine, b },
                2 => Op::LinkRR { a, b },
                3 => Op::UnlinkRR { a, b },
                4 => Op::Sleep(*r.pick(&[1, 50, 500, 3000])),
                5 => Op::Kill(r.below(n) as u8),
                6 => Op::Stop(r.below(n) as u8),
                _ => match req(r, n, 50) {
                    Op::Req { actor, ask, kind, len, .. } => Op::Req { actor, ask, immediate: false, mb: None, rp: None, delay: 20, kind, len, nowait: true },
                    o => o,
                },
            };
            ops.push(hasty(r, o, hurry));
        }
        sc.clients.push((host, ops));
    }
    if r.pct(70) {
        faults(r, &mut sc, 6000, 4, true);
    }
    sc
}

fn some_bytes(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0u64, 1, 3, 8, 20, 60, 300]);
    // what CBOR and the multihash of a peer id start with, now and then
    (0..n).map(|i| if i == 0 && r.pct(50) { *r.pick(&[0x00, 0x12, 0x80, 0x9f, 0xa1, 0xbf, 0x5b, 0x7b, 0xff]) } else { r.below(256) as u8 }).collect()
}

fn id(r: &mut Rng, sc: &Scenario) -> Id {
    match r.weighted(&[40, 15, 15, 10, 10, 10]) {
        0 => Id::Actor(r.below(sc.actors.len() as u64) as u8),
        1 => Id::Mine(r.below(4) as u8),
        2 => Id::Nobody(r.below(sc.hosts as u64 + 2) as u8),
        3 => Id::NoPeer(r.below(4) as u8),
        4 => Id::Short(r.below(8) as u8),
        _ => Id::BadPeer(some_bytes(r)),
    }
}

fn mangle(r: &mut Rng) -> Mangle {
    match r.weighted(&[45, 20, 25, 10]) {
        0 => Mangle::No,
        1 => Mangle::Cut(r.below(1000) as u16),
        2 => Mangle::Flip(r.below(1000) as u16, r.range(1, 255) as u8),
        _ => Mangle::More(r.range(1, 40) as u16),
    }
}

pub fn c28(r: &mut Rng) -> Scenario {
    let mut sc = base(r, 3, 3);
    sc.lat = lat(r, true);
    sc.lat.max = sc.lat.max.min(60_000);
    sc.lat.min = sc.lat.min.min(sc.lat.max);
    let n = sc.actors.len() as u64;
    let names = r.range(1, 3);
    for _ in 0..r.range(1, 3) {
        let host = r.below(sc.hosts as u64) as u8;
        let own: Vec<u8> = (0..n as u8).filter(|i| sc.actors[*i as usize].host == host).collect();
        let mut ops = vec![];
        for _ in 0..r.range(2, 10) {
            let name = r.below(names) as u8;
            let evil = MINE as u8 + r.below(4) as u8;
            ops.push(match r.weighted(&[25, 25, 6, 5, 20, 8, 5, 12, 2]) {
                0 => req(r, n, 40),
                1 => Op::Lookup { name, wrong: r.pct(25) },
                2 => Op::LookupLocal { name },
                3 if !own.is_empty() => Op::Register { actor: *r.pick(&own), name },
                4 => match req(r, n, 30) {
                    Op::Req { ask, immediate, mb, rp, kind, len, nowait, .. } => Op::Req { actor: evil, ask, immediate, mb, rp, delay: 0, kind, len, nowait },
                    o => o,
                },
                5 if !own.is_empty() => Op::Link { a: *r.pick(&own), b: evil },
                6 if !own.is_empty() => Op::Unlink { a: *r.pick(&own), b: evil },
                6 => Op::LinkRR { a: r.below(n) as u8, b: evil },
                7 => Op::Sleep(*r.pick(&[5, 50, 400, 2000])),
                8 => Op::Kill(r.below(n) as u8),
                _ => Op::Sleep(30),
            });
        }
        sc.clients.push((host, ops));
    }
    let mut acts = vec![];
    // names at hand right away
    for name in 0..names as u8 {
        if r.pct(60) {
            acts.push((10, Act::Put { name, val: Val::Reg(Id::Mine(r.below(4) as u8), r.below(2) as u8, Mangle::No) }));
        }
    }
    for _ in 0..r.range(1, 12) {
        let t = r.below(3000) as u32;
        let to = r.below(sc.hosts as u64) as u8;
        acts.push((t, match r.weighted(&[10, 2, 50, 25, 1, 10, 4, 4]) {
            0 => Act::Raw { to, bytes: some_bytes(r) },
            1 => Act::Huge { to, len: *r.pick(&[5000, 300_000, 1_048_577, 3_000_000]) },
            2 => Act::Req {
                to,
                form: r.below(6) as u8,
                id: id(r, &sc),
                aid: if r.pct(60) { 0 } else { r.below(6) as u8 },
                mid: if r.pct(60) { 0 } else { r.below(6) as u8 },
                pay: match r.weighted(&[30, 10, 20, 15, 20, 5]) {
                    0 => Pay::Good,
                    1 => Pay::Empty,
                    2 => Pay::Cut(r.below(1000) as u16),
                    3 => Pay::Text(*r.pick(&[0, 5, 300])),
                    4 => Pay::Junk(some_bytes(r)),
                    _ => Pay::Deep(*r.pick(&[10, 2000, 30_000])),
                },
                timeout: r.below(5) as u8,
                mangle: mangle(r),
                reason: r.below(7) as u8,
            },
            3 => {
                let i = id(r, &sc);
                Act::Put {
                    name: r.below(names) as u8,
                    val: match r.weighted(&[10, 20, 40, 15, 10, 5]) {
                        0 => Val::Empty,
                        1 => Val::Junk(some_bytes(r)),
                        2 => Val::Reg(i, r.below(6) as u8, mangle(r)),
                        3 => Val::Len(i, r.below(256) as u8),
                        4 => Val::NotText(i),
                        _ => Val::Big,
                    },
                }
            }
            4 => Act::Flood(*r.pick(&[20, 1100])),
            5 => Act::Answer(r.below(11) as u8),
            6 => Act::HangUp(to),
            _ => Act::Dial(to),
        }));
    }
    // the record stores are full when names are registered and unregistered
    if r.pct(6) {
        acts.push((10, Act::Flood(1100)));
        for (host, ops) in &mut sc.clients {
            let own: Vec<u8> = (0..n as u8).filter(|i| sc.actors[*i as usize].host == *host).collect();
            let mut late = vec![Op::Sleep(*r.pick(&[300, 1500, 4000]))];
            for _ in 0..r.range(1, 4) {
                let name = if r.pct(70) { 10 + r.below(4) as u8 } else { r.below(names) as u8 };
                late.push(match r.below(4) {
                    0 | 1 if !own.is_empty() => Op::Register { actor: *r.pick(&own), name },
                    2 => Op::Unregister { name },
                    3 => Op::Lookup { name, wrong: false },
                    _ => Op::Sleep(30),
                });
            }
            late.append(ops);
            *ops = late;
        }
    }
    sc.evil = Some(Evil { acts });
    sc
}
