//! A peer which does not speak kameo's language properly: it has a libp2p swarm of its own, sends malformed
//! requests and records, and answers requests in ways kameo does not expect.
use crate::net::{self, Host, SimTransport};
use crate::world::{keypair, on, w, HostInfo};
use async_trait::async_trait;
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, StreamExt};
use kameo::actor::ActorID;
use libp2p::core::{muxing::StreamMuxerBox, transport::Transport};
use libp2p::kad::{self, store::MemoryStore};
use libp2p::request_response::{self as rr, ProtocolSupport};
use libp2p::swarm::{dial_opts::DialOpts, NetworkBehaviour, SwarmEvent};
use libp2p::{PeerId, StreamProtocol, Swarm};
use serde::{Deserialize, Serialize};
use simrt::{log, probe, sim, Rng};
use std::io;
use std::time::Duration;

/// Which actor a request or record names.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Id {
    /// an actor of the scenario
    Actor(u8),
    /// one of the evil peer's
    Mine(u8),
    /// nobody, on the node with that number (or an unknown peer)
    Nobody(u8),
    /// no peer at all
    NoPeer(u8),
    /// too short
    Short(u8),
    /// what follows the sequence number is no peer id
    BadPeer(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mangle {
    No,
    /// cut after this share (per mille)
    Cut(u16),
    /// one byte is changed
    Flip(u16, u8),
    /// more bytes follow
    More(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pay {
    /// a proper message
    Good,
    Empty,
    Cut(u16),
    /// of another type
    Text(u16),
    Junk(Vec<u8>),
    Deep(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Empty,
    Junk(Vec<u8>),
    /// a registration: id, remote id, mangled how
    Reg(Id, u8, Mangle),
    /// with a wrong length byte
    Len(Id, u8),
    /// the remote id is not UTF-8
    NotText(Id),
    Big,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Raw { to: u8, bytes: Vec<u8> },
    Huge { to: u8, len: u32 },
    Req { to: u8, form: u8, id: Id, aid: u8, mid: u8, pay: Pay, timeout: u8, mangle: Mangle, reason: u8 },
    Put { name: u8, val: Val },
    /// fills the record stores
    Flood(u16),
    /// how requests are answered from now on
    Answer(u8),
    HangUp(u8),
    Dial(u8),
}

pub const REMOTE_IDS: [&str; 6] = ["act", "other", "", "nobody", "act-req", "\u{0}\u{fffd}"];
pub const MSG_IDS: [&str; 6] = ["act-req", "other-req", "", "nothing", "act", "\u{0}\u{fffd}"];
/// labels of the evil peer's actors
pub const MINE: i64 = 200;

#[derive(Clone, Debug)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

/// kameo's request as it looks on the wire, with room for ids kameo could not produce.
#[derive(Serialize)]
enum SwarmRequest {
    Ask {
        actor_id: Bytes,
        actor_remote_id: String,
        message_remote_id: String,
        payload: Vec<u8>,
        mailbox_timeout: Option<Duration>,
        reply_timeout: Option<Duration>,
        immediate: bool,
    },
    Tell {
        actor_id: Bytes,
        actor_remote_id: String,
        message_remote_id: String,
        payload: Vec<u8>,
        mailbox_timeout: Option<Duration>,
        immediate: bool,
    },
    Link { actor_id: Bytes, actor_remote_id: String, sibbling_id: Bytes, sibbling_remote_id: String },
    Unlink { actor_id: Bytes, actor_remote_id: String, sibbling_id: Bytes },
    SignalLinkDied { dead_actor_id: Bytes, notified_actor_id: Bytes, notified_actor_remote_id: String, stop_reason: Reason },
    /// there is no such request
    Shutdown { now: bool },
}
#[derive(Serialize)]
enum Reason {
    Normal,
    Killed,
    Panicked(String),
    LinkDied { id: Bytes, reason: Box<Reason> },
    PeerDisconnected,
    Bored,
}
#[derive(Serialize)]
enum Fail {
    ActorNotRunning,
    HandlerError(Vec<u8>),
    HandlerErrorText(String),
}
#[derive(Serialize)]
enum SwarmResponse {
    Ask(Result<Vec<u8>, Fail>),
    Tell(Result<(), Fail>),
    Link(Result<(), Fail>),
    Unlink(Result<(), Fail>),
    SignalLinkDied(Result<(), Fail>),
    OutboundFailure(Fail),
    Shutdown,
}
fn cbor<T: Serialize>(t: &T) -> Vec<u8> {
    cbor4ii::serde::to_vec(vec![], t).unwrap()
}

fn mangle(mut b: Vec<u8>, m: &Mangle) -> Vec<u8> {
    match m {
        Mangle::No => {}
        Mangle::Cut(pm) => b.truncate(b.len() * *pm as usize / 1000),
        Mangle::Flip(pm, x) => {
            if !b.is_empty() {
                let i = (b.len() * *pm as usize / 1000).min(b.len() - 1);
                b[i] ^= (*x).max(1);
            }
        }
        Mangle::More(n) => b.extend(std::iter::repeat_n(0xa5, *n as usize)),
    }
    b
}

fn peer_of(n: u8) -> PeerId {
    w(|w| w.hosts.get(&n).map(|h| h.peer)).unwrap_or_else(|| keypair(777_000 + n as u64).public().to_peer_id())
}
fn id_bytes(id: &Id) -> Vec<u8> {
    let with = |seq: u64, p: PeerId| ActorID::new_with_peer_id(seq, p).to_bytes();
    match id {
        Id::Actor(a) => w(|w| w.actors.get(&(*a as i64)).map(|a| (a.seq, w.hosts[&a.host].peer))).map_or(vec![0; 8], |(s, p)| with(s, p)),
        Id::Mine(k) => with(5000 + *k as u64, my_peer()),
        Id::Nobody(n) => with(900_000 + *n as u64, peer_of(*n)),
        Id::NoPeer(n) => (*n as u64).to_le_bytes().to_vec(),
        Id::Short(n) => vec![1; *n as usize % 8],
        Id::BadPeer(b) => [5u64.to_le_bytes().to_vec(), b.clone()].concat(),
    }
}
fn record(v: &Val) -> Vec<u8> {
    let reg = |id: &Id, text: &[u8], len: Option<u8>| {
        let id = id_bytes(id);
        let mut b = vec![len.unwrap_or(id.len().saturating_sub(8) as u8)];
        b.extend(id);
        b.extend(text);
        b
    };
    match v {
        Val::Empty => vec![],
        Val::Junk(b) => b.clone(),
        Val::Reg(id, t, m) => mangle(reg(id, REMOTE_IDS[*t as usize % 6].as_bytes(), None), m),
        Val::Len(id, n) => reg(id, b"act", Some(*n)),
        Val::NotText(id) => reg(id, &[b'a', 0xff, 0xc0, 0x80], None),
        Val::Big => vec![0x2a; 60_000],
    }
}

fn pay(p: &Pay) -> Vec<u8> {
    let good = rmp_serde::to_vec_named(&crate::world::Req { odd: None, uid: -5, delay: 0, kind: 0, payload: vec![1, 2, 3], rich: crate::world::rich(5, 0), trap: Default::default() }).unwrap();
    match p {
        Pay::Good => good,
        Pay::Empty => vec![],
        Pay::Cut(pm) => good[..good.len() * (*pm).min(999) as usize / 1000].to_vec(),
        Pay::Text(n) => rmp_serde::to_vec(&"x".repeat(*n as usize)).unwrap(),
        Pay::Junk(b) => b.clone(),
        Pay::Deep(n) => vec![0x91; *n as usize],
    }
}

fn request(a: &Act) -> Vec<u8> {
    let Act::Req { form, id, aid, mid, pay: p, timeout, mangle: m, reason, .. } = a else { return vec![] };
    // a changed byte must not make another valid message out of a valid one
    let p = if *m != Mangle::No && *p == Pay::Good { &Pay::Empty } else { p };
    let t = || match timeout % 5 {
        0 => None,
        1 => Some(Duration::ZERO),
        2 => Some(Duration::from_millis(20)),
        3 => Some(Duration::new(u64::MAX, 999_999_999)),
        _ => Some(Duration::from_secs(i64::MAX as u64 / 1000)),
    };
    let actor_id = Bytes(id_bytes(id));
    let sibbling_id = Bytes(id_bytes(&Id::Mine(*mid)));
    let actor_remote_id = REMOTE_IDS[*aid as usize % 6].to_string();
    let message_remote_id = MSG_IDS[*mid as usize % 6].to_string();
    let payload = pay(p);
    let why = match reason % 7 {
        0 => Reason::Normal,
        1 => Reason::Killed,
        2 => Reason::Panicked("evil".into()),
        3 => Reason::LinkDied { id: sibbling_id.clone(), reason: Box::new(Reason::Normal) },
        4 => Reason::PeerDisconnected,
        5 => Reason::LinkDied { id: Bytes(vec![1, 2, 3]), reason: Box::new(Reason::Killed) },
        _ => Reason::Bored,
    };
    let immediate = reason % 2 == 0;
    let r = match form % 6 {
        0 => SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout: t(), reply_timeout: t(), immediate },
        1 => SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout: t(), immediate },
        2 => SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id: message_remote_id },
        3 => SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id },
        4 => SwarmRequest::SignalLinkDied { dead_actor_id: sibbling_id, notified_actor_id: actor_id, notified_actor_remote_id: actor_remote_id, stop_reason: why },
        _ => SwarmRequest::Shutdown { now: true },
    };
    mangle(cbor(&r), m)
}

/// Nobody can serve this request: what it names, or its message, is nothing that can be decoded or exists.
fn nonsense(a: &Act) -> bool {
    let Act::Req { form, id, aid, mid, pay, mangle, .. } = a else { return false };
    let bad_id = matches!(id, Id::Short(_) | Id::BadPeer(_));
    let (aid, mid) = (aid % 6, mid % 6);
    *mangle == Mangle::No
        && match form % 6 {
            0 | 1 => bad_id || aid > 1 || mid > 1 || *pay == Pay::Empty,
            2 => bad_id || aid > 1,
            3 => bad_id,
            4 => bad_id || aid > 1,
            _ => true,
        }
}
/// The answer says that the request succeeded.
fn success(b: &[u8]) -> bool {
    b.iter().take(24).collect::<Vec<_>>().windows(3).any(|w| w == [&0x62, &b'O', &b'k'])
}

/// `None`: no answer.
fn answer(mode: u8, req: &[u8]) -> Option<Vec<u8>> {
    let junk = |n: u64| (0..n).map(|_| sim::choose(sim::NET, 256) as u8).collect::<Vec<u8>>();
    let mode = if mode == 0 { 1 + sim::choose(sim::NET, 9) as u8 } else { mode };
    let fail = || match sim::choose(sim::NET, 3) {
        0 => Fail::ActorNotRunning,
        1 => Fail::HandlerError(vec![0x93, 1]),
        _ => Fail::HandlerErrorText("no".into()),
    };
    // of which kind the request was
    let is = |k: &str| req.windows(k.len()).any(|x| x == k.as_bytes());
    let k = ["Ask", "Tell", "Unlink", "Link", "SignalLinkDied"].iter().position(|k| is(k)).unwrap_or(0);
    let of = |k: usize, ok: bool, v: Vec<u8>| match (k, ok) {
        (0, true) => SwarmResponse::Ask(Ok(v)),
        (0, false) => SwarmResponse::Ask(Err(fail())),
        (1, true) => SwarmResponse::Tell(Ok(())),
        (1, false) => SwarmResponse::Tell(Err(fail())),
        (2, true) => SwarmResponse::Unlink(Ok(())),
        (2, false) => SwarmResponse::Unlink(Err(fail())),
        (3, true) => SwarmResponse::Link(Ok(())),
        (3, false) => SwarmResponse::Link(Err(fail())),
        (_, true) => SwarmResponse::SignalLinkDied(Ok(())),
        (_, false) => SwarmResponse::SignalLinkDied(Err(fail())),
    };
    Some(match mode {
        // as it should be, but for the contents
        1 => cbor(&of(k, true, junk(12))),
        2 => cbor(&of(k, false, vec![])),
        // to something else
        3 | 4 => {
            probe("answer of another kind");
            let other = (k + 1 + sim::choose(sim::NET, 4) as usize) % 5;
            cbor(&of(other, mode == 3, junk(3)))
        }
        5 => cbor(&SwarmResponse::OutboundFailure(fail())),
        6 => cbor(&SwarmResponse::Shutdown),
        7 => vec![],
        8 => junk(sim::choose(sim::NET, 40) as u64),
        9 => {
            let mut b = cbor(&of(k, true, junk(12)));
            let n = sim::choose(sim::NET, b.len() as u32) as usize;
            b.truncate(n);
            b
        }
        _ => return None,
    })
}

#[derive(Clone, Default)]
struct Raw;
#[async_trait]
impl rr::Codec for Raw {
    type Protocol = StreamProtocol;
    type Request = Vec<u8>;
    type Response = Vec<u8>;
    async fn read_request<T: AsyncRead + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T) -> io::Result<Vec<u8>> {
        let mut v = vec![];
        io.read_to_end(&mut v).await?;
        Ok(v)
    }
    async fn read_response<T: AsyncRead + Unpin + Send>(&mut self, p: &StreamProtocol, io: &mut T) -> io::Result<Vec<u8>> {
        self.read_request(p, io).await
    }
    async fn write_request<T: AsyncWrite + Unpin + Send>(&mut self, _: &StreamProtocol, io: &mut T, b: Vec<u8>) -> io::Result<()> {
        io.write_all(&b).await
    }
    async fn write_response<T: AsyncWrite + Unpin + Send>(&mut self, p: &StreamProtocol, io: &mut T, b: Vec<u8>) -> io::Result<()> {
        self.write_request(p, io, b).await
    }
}

#[derive(NetworkBehaviour)]
struct Evil {
    kad: kad::Behaviour<MemoryStore>,
    rr: rr::Behaviour<Raw>,
}

fn my_peer() -> PeerId {
    keypair(999_000).public().to_peer_id()
}

/// `done`: the honest part of the run is over.
pub async fn run(hosts: u8, e: crate::world::Evil) {
    let me = hosts;
    let node = w(|w| {
        w.node += 1;
        w.node
    });
    let kp = keypair(999_000);
    let peer = my_peer();
    w(|w| {
        w.hosts.insert(me, HostInfo { node, peer, up: true, incarnation: 0 });
        for k in 0..4 {
            w.ids.insert((peer.to_bytes(), 5000 + k), MINE + k as i64);
        }
    });
    net::boot(me as Host, node, peer);
    log("node", me as i64, node as i64, 0, 0, format!("{peer} (evil)"));
    on(node, async move {
        let transport = SimTransport { host: me as Host, node }.map(|(p, e), _| (p, StreamMuxerBox::new(e))).boxed();
        let mut store = kad::store::MemoryStoreConfig::default();
        store.max_records = 100_000;
        let mut kad = kad::Behaviour::new(peer, MemoryStore::with_config(peer, store));
        kad.set_mode(Some(kad::Mode::Server));
        let b = Evil { kad, rr: rr::Behaviour::with_codec(Raw, [(StreamProtocol::new("/kameo/1"), ProtocolSupport::Full)], rr::Config::default()) };
        let mut s = Swarm::new(transport, b, peer, libp2p::swarm::Config::with_tokio_executor().with_idle_connection_timeout(Duration::from_secs(60)));
        s.listen_on(net::addr(me as Host)).unwrap();
        for h in 0..hosts {
            let (p, a) = (w(|w| w.hosts[&h].peer), net::addr(h as Host));
            s.behaviour_mut().kad.add_address(&p, a.clone());
            s.add_peer_address(p, a.clone());
            let _ = s.dial(DialOpts::peer_id(p).addresses(vec![a]).build());
            libp2p_mdns::push(p, libp2p_mdns::Event::Discovered(vec![(peer, net::addr(me as Host))]));
        }
        let mut acts = e.acts;
        acts.sort_by_key(|a| a.0);
        let mut acts = acts.into_iter().peekable();
        let start = tokio::time::Instant::now();
        let mut mode = 0;
        let mut hopeless = vec![];
        let mut r = Rng::new(1);
        loop {
            let next = acts.peek().map(|a| start + Duration::from_millis(a.0 as u64));
            tokio::select! {
                _ = tokio::time::sleep_until(next.unwrap_or(start)), if next.is_some() => {
                    let act = acts.next().unwrap().1;
                    log("evil", 0, 0, 0, 0, format!("{act:?}").chars().take(160).collect::<String>());
                    let to = |h: u8| w(|w| w.hosts.get(&h).map_or(peer, |x| x.peer));
                    match &act {
                        Act::Raw { to: h, bytes } => { probe("malformed request"); s.behaviour_mut().rr.send_request(&to(*h), bytes.clone()); }
                        Act::Huge { to: h, len } => { probe("oversized request"); s.behaviour_mut().rr.send_request(&to(*h), vec![0x81; *len as usize]); }
                        Act::Req { to: h, .. } => {
                            probe("hostile request");
                            let id = s.behaviour_mut().rr.send_request(&to(*h), request(&act));
                            if nonsense(&act) {
                                hopeless.push((id, format!("{act:?}")));
                            }
                        }
                        Act::Put { name, val } => {
                            probe("hostile record");
                            let rec = kad::Record::new(format!("x{name}").into_bytes(), record(val));
                            let _ = s.behaviour_mut().kad.put_record(rec, kad::Quorum::One);
                        }
                        Act::Flood(n) => {
                            probe("record stores flooded");
                            for i in 0..*n {
                                let rec = kad::Record::new(format!("flood{i}-{}", r.next()).into_bytes(), vec![1, 2, 3]);
                                s.behaviour_mut().kad.put_record_to(rec, (0..hosts).map(to), kad::Quorum::One);
                            }
                        }
                        Act::Answer(m) => mode = *m,
                        Act::HangUp(h) => { let _ = s.disconnect_peer_id(to(*h)); }
                        Act::Dial(h) => { let _ = s.dial(DialOpts::peer_id(to(*h)).addresses(vec![net::addr(*h as Host)]).condition(libp2p::swarm::dial_opts::PeerCondition::Always).build()); }
                    }
                }
                ev = s.next() => {
                    if let Some(SwarmEvent::Behaviour(EvilEvent::Rr(rr::Event::Message { message: rr::Message::Response { request_id, response }, .. }))) = &ev {
                        if let Some((_, what)) = hopeless.iter().find(|x| x.0 == *request_id) {
                            probe("answer to a hopeless request");
                            if success(response) {
                                log("evilok", 0, 0, 0, 0, what.clone());
                            }
                        }
                    }
                    if let Some(SwarmEvent::Behaviour(EvilEvent::Rr(rr::Event::Message { message: rr::Message::Request { request, channel, .. }, .. }))) = ev {
                        match answer(mode, &request) {
                            Some(b) => { probe("hostile answer"); let _ = s.behaviour_mut().rr.send_response(channel, b); }
                            None => probe("no answer"),
                        }
                    }
                }
            }
        }
    });
}
