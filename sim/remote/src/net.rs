//! The simulated network: an in-memory libp2p transport whose delays, losses, partitions and crashes are
//! drawn from the run's seed. Connections carry independent ordered substreams, as QUIC's do.
use futures::{channel::oneshot, future::BoxFuture, AsyncRead, AsyncWrite, FutureExt};
use libp2p::{
    core::{
        muxing::{StreamMuxer, StreamMuxerEvent},
        transport::{DialOpts, ListenerId, Transport, TransportError, TransportEvent},
    },
    multiaddr::Protocol,
    Multiaddr, PeerId,
};
use simrt::{log, probe, sim};
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    io,
    pin::Pin,
    sync::Mutex,
    task::{Context, Poll, Waker},
};
use tokio::sync::Notify;

/// A host (address); the nodes which run on it one after another have different numbers.
pub type Host = u64;

#[derive(Clone, Copy, Debug)]
pub struct Latency {
    /// microseconds
    pub min: u32,
    pub max: u32,
    /// per mille of chunks which take up to 100 times as long
    pub spike_pm: u32,
    /// deliver writes in pieces
    pub chop_pm: u32,
}

struct HostState {
    node: u32,
    peer: PeerId,
    listener: Option<ListenerId>,
    events: VecDeque<TEvent>,
    waker: Option<Waker>,
    up: bool,
}

type TEvent = TransportEvent<BoxFuture<'static, Result<(PeerId, Endpoint), io::Error>>, io::Error>;

#[derive(Default)]
struct Side {
    host: Host,
    node: u32,
    peer: Option<PeerId>,
    /// why no more data can be exchanged
    dead: Option<String>,
    /// seen alive by the swarm
    up: bool,
    /// reported as gone
    down: bool,
    crashed: bool,
    inbound: VecDeque<usize>,
    last_open_at: u64,
    wakers: Vec<Waker>,
}

#[derive(Default)]
struct Pipe {
    conn: usize,
    /// writing side
    from: usize,
    buf: VecDeque<u8>,
    eof: bool,
    finished: bool,
    last_at: u64,
    in_flight: usize,
    reader: Option<Waker>,
    writer: Option<Waker>,
}

struct Conn {
    side: [Side; 2],
}

enum NetEv {
    Data { pipe: usize, bytes: Vec<u8> },
    Eof { pipe: usize },
    Open { conn: usize, side: usize, stream: usize },
    Dead { conn: usize, side: usize, why: &'static str },
    Syn { dial: usize },
    DialDone { dial: usize },
    DialTimeout { dial: usize },
    Idle { conn: usize, side: usize, epoch: u64 },
}

struct Dial {
    from: Host,
    node: u32,
    to: Host,
    tx: Option<oneshot::Sender<Result<(PeerId, Endpoint), io::Error>>>,
    conn: Option<usize>,
}

struct Net {
    hosts: BTreeMap<Host, HostState>,
    conns: Vec<Conn>,
    /// two pipes per stream: 2*s written by side 0, 2*s+1 written by side 1
    pipes: Vec<Pipe>,
    dials: Vec<Dial>,
    events: BTreeMap<(u64, u64), (Option<(Host, Host)>, NetEv)>,
    held: Vec<((Host, Host), NetEv)>,
    cut: BTreeMap<(Host, Host), u64>,
    seq: u64,
    epoch: u64,
    lat: Latency,
}

static NET: Mutex<Option<Net>> = Mutex::new(None);
static PUMP: Notify = Notify::const_new();

fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut wake = vec![];
    let r = {
        let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
        let n = g.as_mut().expect("network");
        WAKE.with(|w| w.borrow_mut().clear());
        let r = f(n);
        while let Some(d) = DROPPED.with(|d| d.borrow_mut().pop()) {
            match d {
                Dropped::End(conn, side) => n.end_dropped(conn, side),
                Dropped::Stream(conn, side, stream) => n.finish(conn, side, stream),
            }
        }
        WAKE.with(|w| wake.append(&mut w.borrow_mut()));
        r
    };
    for w in wake {
        w.wake();
    }
    r
}
enum Dropped {
    End(usize, usize),
    Stream(usize, usize, usize),
}
/// Something of libp2p's was dropped, perhaps while the network is at work.
fn dropped(d: Dropped) {
    DROPPED.with(|v| v.borrow_mut().push(d));
    match NET.try_lock() {
        // left over when the run ends
        Ok(g) if g.is_none() => return,
        Ok(_) => {}
        // done by whoever holds it
        Err(_) => return,
    }
    net(|_| ())
}
thread_local! {
    static DROPPED: std::cell::RefCell<Vec<Dropped>> = const { std::cell::RefCell::new(Vec::new()) };
    // woken after the network's lock is released
    static WAKE: std::cell::RefCell<Vec<Waker>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        WAKE.with(|v| v.borrow_mut().push(w));
    }
}

pub fn install(lat: Latency) {
    *NET.lock().unwrap() = Some(Net {
        hosts: BTreeMap::new(),
        conns: vec![],
        pipes: vec![],
        dials: vec![],
        events: BTreeMap::new(),
        held: vec![],
        cut: BTreeMap::new(),
        seq: 0,
        epoch: 0,
        lat,
    });
    tokio::spawn(pump());
}

fn pair(a: Host, b: Host) -> (Host, Host) {
    (a.min(b), a.max(b))
}

impl Net {
    fn latency(&self) -> u64 {
        let l = self.lat;
        let mut us = l.min as u64 + sim::choose(sim::NET, l.max - l.min + 1) as u64;
        if sim::coin(sim::NET, l.spike_pm) {
            probe("latency spike");
            us *= 2 + sim::choose(sim::NET, 99) as u64;
        }
        us * 1000
    }
    fn at(&mut self, t: u64, link: Option<(Host, Host)>, ev: NetEv) {
        self.seq += 1;
        let first = self.events.first_key_value().map(|e| e.0 .0);
        self.events.insert((t, self.seq), (link, ev));
        if first.is_none_or(|f| t < f) {
            PUMP.notify_one();
        }
    }
    fn link(&self, conn: usize) -> (Host, Host) {
        let c = &self.conns[conn];
        pair(c.side[0].host, c.side[1].host)
    }
    fn wake_conn(&mut self, conn: usize, side: usize) {
        for w in std::mem::take(&mut self.conns[conn].side[side].wakers) {
            wake(Some(w));
        }
        for p in self.pipes.iter_mut().filter(|p| p.conn == conn) {
            wake(p.reader.take());
            wake(p.writer.take());
        }
    }
    fn report_down(&mut self, conn: usize, side: usize, why: &str) {
        let s = &mut self.conns[conn].side[side];
        if s.down {
            return;
        }
        s.down = true;
        if s.up {
            let (host, node) = (s.host, s.node);
            let other = &self.conns[conn].side[1 - side];
            log("cdown", host as i64, conn as i64, other.host as i64, node as i64, format!("to {} {why}", other.node));
        }
    }
    fn kill(&mut self, conn: usize, side: usize, why: &'static str) {
        if self.conns[conn].side[side].dead.is_some() {
            return;
        }
        self.conns[conn].side[side].dead = Some(why.into());
        self.report_down(conn, side, why);
        self.wake_conn(conn, side);
    }
    /// This side tells the other that the connection is over.
    fn hang_up(&mut self, conn: usize, side: usize, why: &'static str) {
        if self.conns[conn].side[side].crashed || self.conns[conn].side[1 - side].dead.is_some() {
            return;
        }
        let (l, t) = (self.link(conn), sim::now_ns() + self.latency());
        self.at(t, Some(l), NetEv::Dead { conn, side: 1 - side, why });
    }
    fn end_dropped(&mut self, conn: usize, side: usize) {
        if self.conns[conn].side[side].dead.is_none() {
            self.hang_up(conn, side, "closed by peer");
            self.kill(conn, side, "dropped");
        }
    }
    /// The writing half of a stream is closed.
    fn finish(&mut self, conn: usize, side: usize, stream: usize) {
        let pipe = 2 * stream + side;
        if self.pipes[pipe].finished {
            return;
        }
        self.pipes[pipe].finished = true;
        let s = &self.conns[conn].side[side];
        if s.dead.is_some() || s.crashed {
            return;
        }
        let t = (sim::now_ns() + self.latency()).max(self.pipes[pipe].last_at + 1);
        let l = self.link(conn);
        self.pipes[pipe].last_at = t;
        self.at(t, Some(l), NetEv::Eof { pipe });
    }
    fn handle(&mut self, ev: NetEv) {
        match ev {
            NetEv::Data { pipe, bytes } => {
                let p = &mut self.pipes[pipe];
                p.in_flight -= bytes.len();
                p.buf.extend(bytes);
                wake(p.reader.take());
                wake(p.writer.take());
            }
            NetEv::Eof { pipe } => {
                let p = &mut self.pipes[pipe];
                p.eof = true;
                wake(p.reader.take());
            }
            NetEv::Open { conn, side, stream } => {
                let s = &mut self.conns[conn].side[side];
                s.inbound.push_back(stream);
                for w in std::mem::take(&mut s.wakers) {
                    wake(Some(w));
                }
            }
            NetEv::Dead { conn, side, why } => self.kill(conn, side, why),
            NetEv::Syn { dial } => self.syn(dial),
            NetEv::DialDone { dial } => {
                let d = &mut self.dials[dial];
                let conn = d.conn.unwrap();
                if let Some(tx) = d.tx.take() {
                    let peer = self.conns[conn].side[1].peer.unwrap();
                    if self.conns[conn].side[0].dead.is_some() {
                        let _ = tx.send(Err(io::ErrorKind::ConnectionReset.into()));
                    } else {
                        let _ = tx.send(Ok((peer, Endpoint { conn, side: 0 })));
                    }
                } else {
                    // gave up meanwhile
                    self.kill(conn, 0, "dial timed out");
                    self.hang_up(conn, 0, "closed");
                }
            }
            NetEv::DialTimeout { dial } => {
                if let Some(tx) = self.dials[dial].tx.take() {
                    probe("dial timeout");
                    let _ = tx.send(Err(io::ErrorKind::TimedOut.into()));
                }
            }
            NetEv::Idle { conn, side, epoch } => {
                if self.cut.get(&self.link(conn)) == Some(&epoch) && self.conns[conn].side[side].dead.is_none() {
                    probe("connection timed out in a partition");
                    self.kill(conn, side, "timeout");
                    self.hang_up(conn, side, "reset");
                }
            }
        }
    }
    fn syn(&mut self, dial: usize) {
        let (from, to, node) = (self.dials[dial].from, self.dials[dial].to, self.dials[dial].node);
        let back = sim::now_ns() + self.latency();
        let target = self.hosts.get(&to).filter(|h| h.up && h.listener.is_some()).map(|h| (h.node, h.peer, h.listener.unwrap()));
        let Some((tnode, tpeer, listener)) = target else {
            // nobody there: refused at once, or no answer at all
            if sim::coin(sim::NET, 500) {
                self.at(back, Some(pair(from, to)), NetEv::DialTimeout { dial });
            }
            return;
        };
        if !self.hosts.get(&from).is_some_and(|h| h.up && h.node == node) {
            return;
        }
        let conn = self.conns.len();
        let fpeer = self.hosts[&from].peer;
        self.conns.push(Conn {
            side: [
                Side { host: from, node, peer: Some(fpeer), ..Default::default() },
                Side { host: to, node: tnode, peer: Some(tpeer), ..Default::default() },
            ],
        });
        self.dials[dial].conn = Some(conn);
        let h = self.hosts.get_mut(&to).unwrap();
        h.events.push_back(TransportEvent::Incoming {
            listener_id: listener,
            upgrade: futures::future::ready(Ok((fpeer, Endpoint { conn, side: 1 }))).boxed(),
            local_addr: addr(to),
            // as with QUIC, whose dials go out of the socket which listens
            send_back_addr: addr(from),
        });
        wake(h.waker.take());
        self.at(back, Some(pair(from, to)), NetEv::DialDone { dial });
    }
}

async fn pump() {
    loop {
        let next = {
            let notified = PUMP.notified();
            let t = net(|n| n.events.first_key_value().map(|e| e.0 .0));
            match t {
                Some(t) if t <= sim::now_ns() => None,
                Some(t) => Some((notified, Some(t))),
                None => Some((notified, None)),
            }
        };
        match next {
            None => net(|n| {
                let ((_, _), (link, ev)) = n.events.pop_first().unwrap();
                match link {
                    Some(l) if n.cut.contains_key(&l) => n.held.push((l, ev)),
                    _ => n.handle(ev),
                }
            }),
            Some((notified, Some(t))) => {
                let ns = t - sim::now_ns();
                tokio::select! {
                    _ = notified => {}
                    _ = tokio::time::sleep(std::time::Duration::from_nanos(ns)) => {}
                }
            }
            Some((notified, None)) => notified.await,
        }
    }
}

// ---- what the harness does to the network ----------------------------------------------------------

pub fn addr(host: Host) -> Multiaddr {
    Multiaddr::empty().with(Protocol::Memory(host))
}

pub fn boot(host: Host, node: u32, peer: PeerId) {
    net(|n| {
        n.hosts.insert(host, HostState { node, peer, listener: None, events: VecDeque::new(), waker: None, up: true });
    })
}

pub fn partition(a: Host, b: Host) {
    net(|n| {
        if n.cut.contains_key(&pair(a, b)) || a == b {
            return;
        }
        probe("partition");
        n.epoch += 1;
        let epoch = n.epoch;
        n.cut.insert(pair(a, b), epoch);
        for conn in 0..n.conns.len() {
            if n.link(conn) == pair(a, b) {
                for side in 0..2 {
                    let t = sim::now_ns() + 5_000_000_000 + sim::choose(sim::NET, 5000) as u64 * 1_000_000;
                    n.at(t, None, NetEv::Idle { conn, side, epoch });
                }
            }
        }
    })
}

pub fn heal(a: Host, b: Host) {
    net(|n| {
        if n.cut.remove(&pair(a, b)).is_none() {
            return;
        }
        let lat = n.latency();
        let t = sim::now_ns() + lat;
        let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut n.held).into_iter().partition(|h| h.0 == pair(a, b));
        n.held = later;
        // what is already under way comes after what was held up
        let mut moved = vec![];
        n.events.retain(|k, v| {
            let hit = v.0 == Some(pair(a, b)) && k.0 <= t + now.len() as u64;
            if hit {
                moved.push((v.0, std::mem::replace(&mut v.1, NetEv::DialTimeout { dial: 0 })));
            }
            !hit
        });
        for (i, (l, ev)) in now.into_iter().map(|(l, e)| (Some(l), e)).chain(moved).enumerate() {
            n.at(t + i as u64, l, ev);
        }
        let last = t + n.seq;
        for p in 0..n.pipes.len() {
            if n.link(n.pipes[p].conn) == pair(a, b) {
                n.pipes[p].last_at = n.pipes[p].last_at.max(last);
            }
        }
        for c in 0..n.conns.len() {
            if n.link(c) == pair(a, b) {
                for s in 0..2 {
                    n.conns[c].side[s].last_open_at = n.conns[c].side[s].last_open_at.max(last);
                }
            }
        }
    })
}

/// Breaks one (or every) connection between two hosts.
pub fn reset(a: Host, b: Host, all: bool) {
    net(|n| {
        let mut live: Vec<usize> =
            (0..n.conns.len()).filter(|c| n.link(*c) == pair(a, b) && n.conns[*c].side.iter().all(|s| s.dead.is_none())).collect();
        if live.is_empty() {
            return;
        }
        if live.len() > 1 && !all {
            probe("one of several connections reset");
        } else {
            probe("connections reset");
        }
        if !all {
            let k = sim::choose(sim::NET, live.len() as u32) as usize;
            live = vec![live[k]];
        }
        for conn in live {
            for side in 0..2 {
                let t = sim::now_ns() + n.latency();
                n.at(t, None, NetEv::Dead { conn, side, why: "reset" });
            }
        }
    })
}

/// The process on a host is gone; its peers notice soon, or only when their connections time out.
pub fn crash(host: Host) -> u32 {
    net(|n| {
        let h = n.hosts.get_mut(&host).unwrap();
        h.up = false;
        h.listener = None;
        h.events.clear();
        let node = h.node;
        let soon = sim::coin(sim::NET, 500);
        for conn in 0..n.conns.len() {
            for side in 0..2 {
                if n.conns[conn].side[side].node == node {
                    n.conns[conn].side[side].crashed = true;
                    n.kill(conn, side, "crashed");
                    let ms = if soon { sim::choose(sim::NET, 50) } else { 5000 + sim::choose(sim::NET, 5000) };
                    n.at(sim::now_ns() + ms as u64 * 1_000_000, None, NetEv::Dead { conn, side: 1 - side, why: "peer crashed" });
                }
            }
        }
        node
    })
}

pub fn set_latency(lat: Latency) {
    net(|n| n.lat = lat)
}

// ---- libp2p's side ---------------------------------------------------------------------------------

pub struct SimTransport {
    pub host: Host,
    pub node: u32,
}

impl Transport for SimTransport {
    type Output = (PeerId, Endpoint);
    type Error = io::Error;
    type ListenerUpgrade = BoxFuture<'static, Result<Self::Output, io::Error>>;
    type Dial = BoxFuture<'static, Result<Self::Output, io::Error>>;

    fn listen_on(&mut self, id: ListenerId, a: Multiaddr) -> Result<(), TransportError<io::Error>> {
        if a != addr(self.host) {
            return Err(TransportError::MultiaddrNotSupported(a));
        }
        net(|n| {
            let h = n.hosts.get_mut(&self.host).unwrap();
            if h.node != self.node {
                return;
            }
            h.listener = Some(id);
            h.events.push_back(TransportEvent::NewAddress { listener_id: id, listen_addr: a });
            wake(h.waker.take());
        });
        Ok(())
    }

    fn remove_listener(&mut self, id: ListenerId) -> bool {
        net(|n| {
            let h = n.hosts.get_mut(&self.host).unwrap();
            let hit = h.node == self.node && h.listener == Some(id);
            if hit {
                h.listener = None;
            }
            hit
        })
    }

    fn dial(&mut self, a: Multiaddr, _: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        let to = match a.iter().next() {
            Some(Protocol::Memory(h)) => h,
            _ => return Err(TransportError::MultiaddrNotSupported(a)),
        };
        let (tx, rx) = oneshot::channel();
        net(|n| {
            let dial = n.dials.len();
            n.dials.push(Dial { from: self.host, node: self.node, to, tx: Some(tx), conn: None });
            let t = sim::now_ns() + n.latency();
            n.at(t, Some(pair(self.host, to)), NetEv::Syn { dial });
            n.at(sim::now_ns() + 5_000_000_000, None, NetEv::DialTimeout { dial });
        });
        Ok(async move { rx.await.unwrap_or_else(|_| Err(io::ErrorKind::TimedOut.into())) }.boxed())
    }

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<TEvent> {
        net(|n| {
            let h = n.hosts.get_mut(&self.host).unwrap();
            if h.node != self.node {
                return Poll::Pending;
            }
            match h.events.pop_front() {
                Some(ev) => Poll::Ready(ev),
                None => {
                    h.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}

/// One end of a connection.
pub struct Endpoint {
    conn: usize,
    side: usize,
}

impl Endpoint {
    fn dead(&self, n: &Net) -> Option<io::Error> {
        n.conns[self.conn].side[self.side].dead.as_ref().map(|d| io::Error::new(io::ErrorKind::ConnectionReset, d.clone()))
    }
}

impl StreamMuxer for Endpoint {
    type Substream = Sub;
    type Error = io::Error;

    fn poll_inbound(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Sub, io::Error>> {
        net(|n| {
            if let Some(e) = self.dead(n) {
                return Poll::Ready(Err(e));
            }
            let s = &mut n.conns[self.conn].side[self.side];
            match s.inbound.pop_front() {
                Some(stream) => Poll::Ready(Ok(Sub { conn: self.conn, side: self.side, stream })),
                None => {
                    s.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }

    fn poll_outbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<Sub, io::Error>> {
        net(|n| {
            if let Some(e) = self.dead(n) {
                return Poll::Ready(Err(e));
            }
            let stream = n.pipes.len() / 2;
            let t = (sim::now_ns() + n.latency()).max(n.conns[self.conn].side[self.side].last_open_at + 1);
            n.conns[self.conn].side[self.side].last_open_at = t;
            for from in 0..2 {
                n.pipes.push(Pipe { conn: self.conn, from, last_at: t, ..Default::default() });
            }
            let l = n.link(self.conn);
            n.at(t, Some(l), NetEv::Open { conn: self.conn, side: 1 - self.side, stream });
            Poll::Ready(Ok(Sub { conn: self.conn, side: self.side, stream }))
        })
    }

    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        net(|n| {
            if n.conns[self.conn].side[self.side].dead.is_none() {
                n.hang_up(self.conn, self.side, "closed by peer");
                n.kill(self.conn, self.side, "closed");
            }
        });
        Poll::Ready(Ok(()))
    }

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<StreamMuxerEvent, io::Error>> {
        net(|n| {
            let s = &mut n.conns[self.conn].side[self.side];
            if !s.up {
                s.up = true;
                let (host, node) = (s.host, s.node);
                let o = &n.conns[self.conn].side[1 - self.side];
                log("cup", host as i64, self.conn as i64, o.host as i64, node as i64, format!("to {}", o.node));
                let s = &n.conns[self.conn].side[self.side];
                if let Some(why) = s.dead.clone() {
                    n.conns[self.conn].side[self.side].down = false;
                    n.report_down(self.conn, self.side, &why);
                }
            }
            if let Some(e) = self.dead(n) {
                return Poll::Ready(Err(e));
            }
            n.conns[self.conn].side[self.side].wakers.push(cx.waker().clone());
            Poll::Pending
        })
    }
}

impl Drop for Endpoint {
    fn drop(&mut self) {
        dropped(Dropped::End(self.conn, self.side))
    }
}

/// One end of a stream.
pub struct Sub {
    conn: usize,
    side: usize,
    stream: usize,
}

const WINDOW: usize = 256 * 1024;

impl AsyncRead for Sub {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        net(|n| {
            let chop = n.lat.chop_pm;
            let dead = n.conns[self.conn].side[self.side].dead.clone();
            let p = &mut n.pipes[2 * self.stream + 1 - self.side];
            if let Some(d) = dead {
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, d)));
            }
            if p.buf.is_empty() {
                if p.eof {
                    return Poll::Ready(Ok(0));
                }
                p.reader = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut k = buf.len().min(p.buf.len());
            if k > 1 && sim::coin(sim::NET, chop) {
                k = 1 + sim::choose(sim::NET, k as u32) as usize % k;
                probe("short read");
            }
            for (i, b) in p.buf.drain(..k).enumerate() {
                buf[i] = b;
            }
            wake(p.writer.take());
            Poll::Ready(Ok(k))
        })
    }
}

impl AsyncWrite for Sub {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        net(|n| {
            if let Some(d) = n.conns[self.conn].side[self.side].dead.clone() {
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, d)));
            }
            let pipe = 2 * self.stream + self.side;
            if n.pipes[pipe].finished {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            let room = WINDOW.saturating_sub(n.pipes[pipe].in_flight + n.pipes[pipe].buf.len());
            if room == 0 {
                n.pipes[pipe].writer = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut k = buf.len().min(room);
            if k > 1 && sim::coin(sim::NET, n.lat.chop_pm) {
                k = 1 + sim::choose(sim::NET, k as u32) as usize % k;
                probe("short write");
            }
            let t = (sim::now_ns() + n.latency()).max(n.pipes[pipe].last_at + 1);
            let l = n.link(self.conn);
            n.pipes[pipe].last_at = t;
            n.pipes[pipe].in_flight += k;
            n.at(t, Some(l), NetEv::Data { pipe, bytes: buf[..k].to_vec() });
            Poll::Ready(Ok(k))
        })
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        net(|n| n.finish(self.conn, self.side, self.stream));
        Poll::Ready(Ok(()))
    }
}

impl Drop for Sub {
    fn drop(&mut self) {
        dropped(Dropped::Stream(self.conn, self.side, self.stream))
    }
}

/// Pairs of hosts which are cut off from each other.
pub fn cuts() -> BTreeSet<(Host, Host)> {
    net(|n| n.cut.keys().copied().collect())
}
