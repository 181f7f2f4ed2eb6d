//! Several kameo nodes in one process, on the simulated network.
use crate::net::{self, Host, Latency, SimTransport};
use futures::FutureExt;
use kameo::actor::{ActorID, ActorRef, RemoteActorRef, WeakActorRef};
use kameo::error::{ActorStopReason, PanicError, RegistryError, RemoteSendError};
use kameo::mailbox;
use kameo::message::{Context, Message};
use kameo::remote::{ActorSwarm, ActorSwarmBehaviour};
use kameo::{remote_message, Actor, RemoteActor};
use libp2p::core::{muxing::StreamMuxerBox, transport::Transport};
use libp2p::identity::Keypair;
use libp2p::swarm::dial_opts::{DialOpts, PeerCondition};
use libp2p::{PeerId, Swarm};
use serde::{Deserialize, Serialize};
use simrt::{log, probe, sim};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::ops::ControlFlow;
use std::sync::Mutex;
use std::time::Duration;

pub const OK: i64 = 0;
pub const HANDLER: i64 = 1;
pub const NOT_RUNNING: i64 = 2;
pub const STOPPED: i64 = 3;
pub const FULL: i64 = 4;
pub const TIMEOUT: i64 = 5;
pub const DIAL: i64 = 6;
pub const NET_TIMEOUT: i64 = 7;
pub const CLOSED: i64 = 8;
pub const IO: i64 = 9;
pub const PROTO: i64 = 10;
pub const BAD: i64 = 11;
pub const HANG: i64 = 12;
/// the caller dropped the operation
pub const GAVE_UP: i64 = 13;
/// what was sent, or replied, cannot be encoded or decoded
pub const CODEC: i64 = 14;
// registry
pub const FOUND: i64 = 0;
pub const NONE: i64 = 1;
pub const BAD_TYPE: i64 = 2;
pub const QUORUM: i64 = 3;
pub const REG_TIMEOUT: i64 = 4;
pub const NOT_BOOTED: i64 = 5;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lat {
    pub min: u32,
    pub max: u32,
    pub spike: u32,
    pub chop: u32,
}
impl Lat {
    pub fn get(self) -> Latency {
        Latency { min: self.min, max: self.max.max(self.min), spike_pm: self.spike, chop_pm: self.chop }
    }
}
pub const CALM: Lat = Lat { min: 200, max: 3000, spike: 0, chop: 0 };

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ASpec {
    pub host: u8,
    pub other: bool,
    pub cap: Option<u32>,
    /// survives panics of its handlers
    pub tough: bool,
    /// how long its link hook takes, ms
    pub slow_hook: u32,
    /// only registered by a client's operation
    pub unregistered: bool,
    /// ends with those it is linked with, like actors do by default
    #[serde(default)]
    pub mortal: bool,
    /// has a thread of its own
    #[serde(default)]
    pub thread: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Req {
        actor: u8,
        ask: bool,
        immediate: bool,
        mb: Option<u32>,
        rp: Option<u32>,
        delay: u32,
        /// 0 ok, 1 err, 2 panic, 3 and 4 a reply, 5 and 6 an error, 7 and 8 a message which does not encode or decode
        kind: u8,
        len: u32,
        /// go on without waiting for the result
        nowait: bool,
    },
    Stop(u8),
    Kill(u8),
    Sleep(u32),
    Lookup { name: u8, wrong: bool },
    LookupLocal { name: u8 },
    /// looks up and asks what was found
    Call { name: u8, other: bool },
    Register { actor: u8, name: u8 },
    Unregister { name: u8 },
    Link { a: u8, b: u8 },
    Unlink { a: u8, b: u8 },
    LinkRR { a: u8, b: u8 },
    UnlinkRR { a: u8, b: u8 },
    /// drops the operation after so many ms
    GiveUp { ms: u32, nowait: bool, op: Box<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    Partition(u8, u8),
    Heal(u8, u8),
    Reset(u8, u8, bool),
    Crash(u8),
    Restart(u8),
    Disconnect(u8, u8),
    Dial(u8, u8),
    Net(Lat),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Evil {
    /// (ms, what)
    pub acts: Vec<(u32, crate::evil::Act)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub hosts: u8,
    /// initial dials
    pub dials: Vec<(u8, u8)>,
    /// pairs which discover each other
    pub mdns: Vec<(u8, u8)>,
    pub lat: Lat,
    pub actors: Vec<ASpec>,
    pub clients: Vec<(u8, Vec<Op>)>,
    pub faults: Vec<(u32, Fault)>,
    /// reregister the actors of a host which restarts
    pub rereg: bool,
    pub evil: Option<Evil>,
    /// hosts which nobody can dial
    #[serde(default)]
    pub deaf: Vec<u8>,
    /// host 0 bootstraps late
    #[serde(default)]
    pub early: Option<crate::early::Early>,
    /// clients are threads of their own
    #[serde(default)]
    pub threads: bool,
    /// no multicast
    #[serde(default)]
    pub discover: Option<crate::discover::Discover>,
}

#[derive(Clone)]
pub enum LRef {
    A(ActorRef<Act>),
    O(ActorRef<Other>),
}
impl LRef {
    pub fn id(&self) -> ActorID {
        match self {
            LRef::A(a) => a.id(),
            LRef::O(a) => a.id(),
        }
    }
}
#[derive(Clone)]
pub enum RRef {
    A(RemoteActorRef<Act>),
    O(RemoteActorRef<Other>),
}
impl RRef {
    pub fn id(&self) -> ActorID {
        match self {
            RRef::A(a) => a.id(),
            RRef::O(a) => a.id(),
        }
    }
}

pub struct HostInfo {
    pub node: u32,
    pub peer: PeerId,
    pub up: bool,
    pub incarnation: u32,
}
pub struct ActorInfo {
    pub node: u32,
    pub host: u8,
    pub seq: u64,
    pub lref: LRef,
    pub spec: ASpec,
}
#[derive(Default)]
pub struct World {
    pub hosts: BTreeMap<u8, HostInfo>,
    pub actors: BTreeMap<i64, ActorInfo>,
    /// (peer, sequence id) to label
    pub ids: HashMap<(Vec<u8>, u64), i64>,
    pub refs: HashMap<(u32, i64), RRef>,
    pub uid: i64,
    pub node: u32,
}
pub static W: Mutex<Option<World>> = Mutex::new(None);
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    f(W.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}
pub fn label(id: &ActorID) -> i64 {
    let p = id.peer_id().map(|p| p.to_bytes()).unwrap_or_default();
    w(|w| w.ids.get(&(p, id.sequence_id())).copied().unwrap_or(-1))
}
pub fn next_uid() -> i64 {
    w(|w| {
        w.uid += 1;
        w.uid
    })
}

// ---- actors ----------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug)]
pub struct Req {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub odd: Option<i64>,
    pub uid: i64,
    pub delay: u32,
    pub kind: u8,
    pub payload: Vec<u8>,
    #[serde(default)]
    pub rich: Rich,
    #[serde(default)]
    pub trap: Trap,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Rep {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub odd: Option<i64>,
    pub uid: i64,
    pub actor: i64,
    pub payload: Vec<u8>,
    pub rich: Rich,
    pub trap: Trap,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Oops {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub odd: Option<i64>,
    pub uid: i64,
    pub actor: i64,
    pub rich: Rich,
    pub trap: Trap,
}

/// Fails to be encoded (1) or to be decoded (2).
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Trap(pub u8);
impl Serialize for Trap {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 1 {
            return Err(serde::ser::Error::custom("not to be encoded"));
        }
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for Trap {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u8::deserialize(d)? {
            0 => Ok(Trap(0)),
            _ => Err(serde::de::Error::custom("not to be decoded")),
        }
    }
}

/// What users put into their messages.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub enum Shape {
    Unit,
    New(i64),
    Tuple(u8, String),
    Struct { x: f64, y: Option<bool> },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "t", rename_all = "kebab-case")]
pub enum Tagged {
    First { a: u32 },
    SecondOne { b: String },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
pub enum Loose {
    Num(i64),
    Text(String),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
pub struct Rich {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub a: Option<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub shapes: Vec<Shape>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub b: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "kind")]
    pub tagged: Option<Tagged>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub loose: Vec<Loose>,
    pub map: BTreeMap<String, (u64, Option<char>)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub more: Option<Box<Rich>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub wide: Option<Wide>,
    pub last: u16,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
pub struct Wide {
    pub one: i32,
    #[serde(flatten)]
    pub rest: BTreeMap<String, i32>,
}
pub fn rich(uid: i64, depth: u32) -> Rich {
    let mut x = (uid as u64).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(depth as u64 * 77);
    let mut below = move |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    let text = |i: u64| ["", "a", "zwölf", "\u{0}", "long long long long long long text"][i as usize % 5].to_string();
    let num = |i: u64| [0, 1, -1, i64::MAX, i64::MIN, 127, -128, 65_536][i as usize % 8];
    let mut r = Rich::default();
    if below(2) == 0 {
        r.a = Some(num(below(8)));
    }
    for _ in 0..below(3) {
        let s = match below(4) {
            0 => Shape::Unit,
            1 => Shape::New(num(below(8))),
            2 => Shape::Tuple(below(256) as u8, text(below(5))),
            _ => Shape::Struct { x: [0.0, -1.5, 1e300, f64::INFINITY][below(4) as usize], y: [None, Some(true), Some(false)][below(3) as usize] },
        };
        r.shapes.push(s);
    }
    if below(2) == 0 {
        r.b = Some(text(below(5)));
    }
    match below(3) {
        0 => r.tagged = Some(Tagged::First { a: below(9) as u32 }),
        1 => r.tagged = Some(Tagged::SecondOne { b: text(below(5)) }),
        _ => {}
    }
    for _ in 0..below(3) {
        let l = if below(2) == 0 { Loose::Num(num(below(8))) } else { Loose::Text(text(below(5))) };
        r.loose.push(l);
    }
    for i in 0..below(3) {
        r.map.insert(format!("m{i}"), (below(u64::MAX), [None, Some('x'), Some('☃')][below(3) as usize]));
    }
    if below(2) == 0 {
        let mut w = Wide { one: below(1000) as i32 - 500, ..Default::default() };
        for i in 0..below(3) {
            w.rest.insert(format!("rest{i}"), below(1000) as i32 - 500);
        }
        r.wide = Some(w);
    }
    r.last = below(65_536) as u16;
    if depth < 2 && below(3) == 0 {
        r.more = Some(Box::new(rich(uid, depth + 1)));
    }
    r
}
pub fn odd(uid: i64) -> Option<i64> {
    (uid % 2 == 1).then_some(uid)
}
fn expect_ok(uid: i64, actor: i64, p: &[u8], kind: u8) -> Rep {
    Rep { odd: odd(uid), uid, actor, payload: echo(p), rich: rich(-uid, 0), trap: Trap(if kind == 3 { 1 } else if kind == 4 { 2 } else { 0 }) }
}
fn expect_err(uid: i64, actor: i64, kind: u8) -> Oops {
    Oops { odd: odd(uid), uid, actor, rich: rich(-uid, 0), trap: Trap(if kind == 5 { 1 } else if kind == 6 { 2 } else { 0 }) }
}

pub fn payload(uid: i64, len: u32) -> Vec<u8> {
    let mut x = uid as u64;
    (0..len)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 56) as u8
        })
        .collect()
}
fn echo(p: &[u8]) -> Vec<u8> {
    p.iter().rev().map(|b| b ^ 0x5a).collect()
}

/// All of a reason; a panic which is no text becomes one on the way to another node
pub fn reason_str(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => format!("panic {}", e.with_str(|s| s.to_string()).unwrap_or("panicked".into())),
        ActorStopReason::LinkDied { id, reason } => format!("link {} <{}>", label(id), reason_str(reason)),
        ActorStopReason::PeerDisconnected => "gone".into(),
    }
}

pub fn reason_code(r: &ActorStopReason) -> i64 {
    match r {
        ActorStopReason::Normal => 0,
        ActorStopReason::Killed => 1,
        ActorStopReason::Panicked(_) => 2,
        ActorStopReason::LinkDied { .. } => 3,
        ActorStopReason::PeerDisconnected => 4,
    }
}

/// Which handler is running, so that its being cut off shows up in the history.
struct Running(i64, i64, bool);
impl Drop for Running {
    fn drop(&mut self) {
        if !self.2 && !sim::node_dead(sim::current_node()) {
            log("h!", self.0, self.1, 0, 0, "");
        }
    }
}

macro_rules! actor {
    ($name:ident, $rid:tt, $mid:tt) => {
        #[derive(RemoteActor)]
        #[remote_actor(id = $rid)]
        pub struct $name {
            pub idx: i64,
            pub spec: ASpec,
        }
        impl Actor for $name {
            type Error = kameo::error::Infallible;
            async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), Self::Error> {
                Ok(())
            }
            async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, Self::Error> {
                log("panicked", self.idx, 0, 0, 0, "");
                Ok(if self.spec.tough { ControlFlow::Continue(()) } else { ControlFlow::Break(ActorStopReason::Panicked(err)) })
            }
            async fn on_link_died(
                &mut self,
                _: WeakActorRef<Self>,
                id: ActorID,
                reason: ActorStopReason,
            ) -> Result<ControlFlow<ActorStopReason>, Self::Error> {
                log("died", self.idx, label(&id), reason_code(&reason), sim::current_node() as i64, &reason_str(&reason));
                if self.spec.slow_hook > 0 {
                    tokio::time::sleep(Duration::from_millis(self.spec.slow_hook as u64)).await;
                }
                Ok(match (self.spec.mortal, &reason) {
                    (false, _) | (_, ActorStopReason::Normal) => ControlFlow::Continue(()),
                    (_, ActorStopReason::PeerDisconnected) => ControlFlow::Break(reason),
                    _ => ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(reason) }),
                })
            }
            async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), Self::Error> {
                log("stop", self.idx, 0, reason_code(&reason), 0, &reason_str(&reason));
                Ok(())
            }
        }
        #[remote_message($mid)]
        impl Message<Req> for $name {
            type Reply = Result<Rep, Oops>;
            async fn handle(&mut self, m: Req, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
                let good = m.payload == payload(m.uid, m.payload.len() as u32) && m.odd == odd(m.uid) && (m.uid < 0 || m.rich == rich(m.uid, 0)) && m.trap == Trap(0);
                log("hb", self.idx, m.uid, good as i64, m.payload.len() as i64, "");
                let mut running = Running(self.idx, m.uid, false);
                if m.delay > 0 {
                    tokio::time::sleep(Duration::from_millis(m.delay as u64)).await;
                }
                log("he", self.idx, m.uid, m.kind as i64, 0, "");
                running.2 = true;
                match m.kind {
                    0 | 3 | 4 => Ok(expect_ok(m.uid, self.idx, &m.payload, m.kind)),
                    1 | 5 | 6 => Err(expect_err(m.uid, self.idx, m.kind)),
                    _ => panic!("by the harness"),
                }
            }
        }
    };
}
actor!(Act, "act", "act-req");
actor!(Other, "other", "other-req");

// ---- nodes -----------------------------------------------------------------------------------------

/// Spawns on a node.
pub fn on<F: Future<Output = T> + Send + 'static, T: Send + 'static>(node: u32, f: F) -> tokio::task::JoinHandle<T> {
    let _g = sim::enter_node(node);
    tokio::spawn(f)
}

/// Runs as a task, or as a thread, of a node.
pub fn run_on(node: u32, thread: bool, f: impl Future<Output = ()> + Send + 'static) -> tokio::task::JoinHandle<()> {
    if !thread {
        return on(node, f);
    }
    let (tx, rx) = tokio::sync::oneshot::channel();
    let h = tokio::runtime::Handle::current();
    {
        let _g = sim::enter_node(node);
        std::thread::spawn(move || {
            h.block_on(f);
            let _ = tx.send(());
        });
    }
    on(node, async move {
        let _ = rx.await;
    })
}

pub fn keypair(tag: u64) -> Keypair {
    let mut seed = [7u8; 32];
    seed[..8].copy_from_slice(&tag.to_le_bytes());
    Keypair::ed25519_from_bytes(seed).unwrap()
}

pub async fn boot(host: u8, incarnation: u32, deaf: bool) -> u32 {
    let (node, kp) = prepare(host, incarnation);
    on(node, async move {
        let s = bootstrap(host, node, &kp).unwrap_or_else(|_| panic!("already bootstrapped"));
        if !deaf {
            s.listen_on(net::addr(host as Host)).await.unwrap();
        }
    })
    .await
    .unwrap();
    node
}

/// A node which isn't bootstrapped yet.
pub fn prepare(host: u8, incarnation: u32) -> (u32, Keypair) {
    let node = w(|w| {
        w.node += 1;
        w.node
    });
    let kp = keypair(host as u64 * 1000 + incarnation as u64);
    let peer = kp.public().to_peer_id();
    w(|w| w.hosts.insert(host, HostInfo { node, peer, up: true, incarnation }));
    net::boot(host as Host, node, peer);
    log("node", host as i64, node as i64, incarnation as i64, 0, peer.to_string());
    (node, kp)
}

pub fn bootstrap(host: u8, node: u32, kp: &Keypair) -> Result<&'static ActorSwarm, kameo::error::BootstrapError> {
    let peer = kp.public().to_peer_id();
    let transport = SimTransport { host: host as Host, node }
        .map(|(p, e), _| (p, StreamMuxerBox::new(e)))
        .boxed();
    let behaviour = ActorSwarmBehaviour::new(kp).unwrap();
    let swarm = Swarm::new(
        transport,
        behaviour,
        peer,
        libp2p::swarm::Config::with_tokio_executor().with_idle_connection_timeout(Duration::from_secs(60)),
    );
    ActorSwarm::bootstrap_with_swarm(swarm)
}

pub fn meet(a: u8, b: u8) {
    let (pa, pb) = w(|w| (w.hosts[&a].peer, w.hosts[&b].peer));
    libp2p_mdns::push(pa, libp2p_mdns::Event::Discovered(vec![(pb, net::addr(b as Host))]));
    libp2p_mdns::push(pb, libp2p_mdns::Event::Discovered(vec![(pa, net::addr(a as Host))]));
}

pub fn dial(a: u8, b: u8, always: bool) {
    let (node, peer) = w(|w| (w.hosts[&a].node, w.hosts[&b].peer));
    on(node, async move {
        let mut o = DialOpts::peer_id(peer).addresses(vec![net::addr(b as Host)]);
        if always {
            o = o.condition(PeerCondition::Always);
        }
        let _ = ActorSwarm::get().unwrap().dial(o.build()).await;
    });
}

pub async fn spawn_actor(idx: i64, spec: ASpec, host: u8) {
    let node = w(|w| w.hosts[&host].node);
    let peer = w(|w| w.hosts[&host].peer);
    let sp = spec.clone();
    on(node, async move {
        macro_rules! go {
            ($T:ident, $V:ident) => {{
                let mb = match sp.cap {
                    Some(c) => mailbox::bounded(c as usize),
                    None => mailbox::unbounded(),
                };
                let a = $T { idx, spec: sp.clone() };
                LRef::$V(if sp.thread { kameo::actor::spawn_in_thread_with_mailbox(a, mb) } else { kameo::actor::spawn_with_mailbox(a, mb) })
            }};
        }
        let lref = if sp.other { go!(Other, O) } else { go!(Act, A) };
        let id = lref.id();
        log("actor", idx, id.sequence_id() as i64, host as i64, node as i64, if sp.other { "other" } else { "act" });
        w(|w| {
            w.ids.insert((peer.to_bytes(), id.sequence_id()), idx);
            // as long as it isn't bootstrapped
            if host == 0 {
                w.ids.insert((vec![], id.sequence_id()), idx);
            }
            w.actors.insert(idx, ActorInfo { node, host, seq: id.sequence_id(), lref, spec: sp });
        });
    })
    .await
    .ok();
}

/// An operation which its caller may drop.
struct Open(i64, i64, bool);
impl Open {
    fn ret(mut self, code: i64, val: i64, s: impl Into<String>) {
        self.2 = true;
        log("ret", self.0, self.1, code, val, s.into());
    }
}
impl Drop for Open {
    fn drop(&mut self) {
        if !self.2 && !sim::node_dead(sim::current_node()) {
            probe("operation dropped by its caller");
            log("ret", self.0, self.1, GAVE_UP, 0, "");
        }
    }
}

pub fn reg_code(e: &RegistryError) -> i64 {
    match e {
        RegistryError::BadActorType => BAD_TYPE,
        RegistryError::QuorumFailed { .. } => QUORUM,
        RegistryError::Timeout => REG_TIMEOUT,
        RegistryError::SwarmNotBootstrapped => NOT_BOOTED,
        #[allow(unreachable_patterns)]
        _ => BAD,
    }
}

const LONG: Duration = Duration::from_secs(150);
const GUARD: Duration = Duration::from_secs(60);

pub async fn register(client: i64, idx: i64, name: String) -> i64 {
    let uid = next_uid();
    let Some(l) = w(|w| w.actors.get(&idx).map(|a| a.lref.clone())) else { return BAD };
    log("inv", client, uid, idx, sim::current_node() as i64, format!("register {name}"));
    let open = Open(client, uid, false);
    let r = tokio::time::timeout(LONG, async {
        match &l {
            LRef::A(a) => a.register(&name).await,
            LRef::O(a) => a.register(&name).await,
        }
    })
    .await;
    let code = match r {
        Ok(Ok(())) => OK,
        Ok(Err(e)) => reg_code(&e),
        Err(_) => HANG,
    };
    open.ret(code, 0, format!("register {name}"));
    code
}

/// Looks a name up; the result's label, or -1.
pub async fn lookup(client: i64, name: &str, other: bool, tag: &str) -> (i64, Option<RRef>) {
    let uid = next_uid();
    let node = sim::current_node();
    log("inv", client, uid, other as i64, node as i64, format!("{tag} {name}"));
    let open = Open(client, uid, false);
    let r = tokio::time::timeout(LONG, async {
        if other {
            RemoteActorRef::<Other>::lookup(name).await.map(|o| o.map(RRef::O))
        } else {
            RemoteActorRef::<Act>::lookup(name).await.map(|o| o.map(RRef::A))
        }
    })
    .await;
    let (code, found) = match r {
        Ok(Ok(Some(r))) => (FOUND, Some(r)),
        Ok(Ok(None)) => (NONE, None),
        Ok(Err(e)) => (reg_code(&e), None),
        Err(_) => (HANG, None),
    };
    let val = found.as_ref().map_or(-1, |r| label(&r.id()));
    open.ret(code, val, format!("{tag} {name}"));
    if let (Some(r), true) = (&found, val >= 0) {
        let good = val >= crate::evil::MINE || w(|w| w.actors.get(&val).is_some_and(|a| a.spec.other == other));
        if good {
            w(|w| w.refs.insert((node, val), r.clone()));
        }
    }
    (code, found)
}

pub fn send_code<E>(e: &RemoteSendError<E>) -> (i64, String) {
    match e {
        RemoteSendError::ActorNotRunning => (NOT_RUNNING, String::new()),
        RemoteSendError::ActorStopped => (STOPPED, String::new()),
        RemoteSendError::MailboxFull => (FULL, String::new()),
        RemoteSendError::ReplyTimeout => (TIMEOUT, String::new()),
        RemoteSendError::HandlerError(_) => (HANDLER, String::new()),
        RemoteSendError::DialFailure => (DIAL, String::new()),
        RemoteSendError::NetworkTimeout => (NET_TIMEOUT, String::new()),
        RemoteSendError::ConnectionClosed => (CLOSED, String::new()),
        RemoteSendError::Io(e) => (IO, e.as_ref().map(|e| e.to_string()).unwrap_or_default()),
        RemoteSendError::UnsupportedProtocols => (PROTO, String::new()),
        RemoteSendError::UnknownActor { actor_remote_id } => (BAD, format!("unknown actor {actor_remote_id}")),
        RemoteSendError::UnknownMessage { actor_remote_id, .. } => (BAD, format!("unknown message {actor_remote_id}")),
        RemoteSendError::BadActorType => (BAD, "bad actor type".into()),
        RemoteSendError::SerializeMessage(s) => (CODEC, format!("serialize message {s}")),
        RemoteSendError::DeserializeMessage(s) => (CODEC, format!("deserialize message {s}")),
        RemoteSendError::SerializeReply(s) => (CODEC, format!("serialize reply {s}")),
        RemoteSendError::SerializeHandlerError(s) => (CODEC, format!("serialize error {s}")),
        RemoteSendError::DeserializeHandlerError(s) => (CODEC, format!("deserialize error {s}")),
        RemoteSendError::SwarmNotBootstrapped => (BAD, "not bootstrapped".into()),
    }
}

#[allow(clippy::too_many_arguments)]
pub async fn request(client: i64, idx: i64, ask: bool, immediate: bool, mb: Option<u32>, rp: Option<u32>, delay: u32, kind: u8, len: u32, tag: &'static str) -> i64 {
    let node = sim::current_node();
    let Some(r) = w(|w| w.refs.get(&(node, idx)).cloned()) else { return BAD };
    let uid = next_uid();
    let m = Req { odd: odd(uid), uid, delay, kind, payload: payload(uid, len), rich: rich(uid, 0), trap: Trap(if kind == 7 { 1 } else if kind == 8 { 2 } else { 0 }) };
    let how = format!(
        "{tag} {}{} mb={} rp={} delay={delay} kind={kind} len={len}",
        if immediate { "try-" } else { "" },
        if ask { "ask" } else { "tell" },
        mb.map_or(-1, |x| x as i64),
        rp.map_or(-1, |x| x as i64)
    );
    log("inv", client, uid, idx, node as i64, how);
    let open = Open(client, uid, false);
    let ms = |x: u32| Duration::from_millis(x as u64);
    macro_rules! go {
        ($r:expr) => {{
            if ask {
                let q = $r.ask(&m);
                match (immediate, mb, rp) {
                    (true, _, None) => q.try_send().await,
                    (true, _, Some(rp)) => q.reply_timeout(ms(rp)).try_send().await,
                    (false, None, None) => q.send().await,
                    (false, Some(mb), None) => q.mailbox_timeout(ms(mb)).send().await,
                    (false, None, Some(rp)) => q.reply_timeout(ms(rp)).send().await,
                    (false, Some(mb), Some(rp)) => q.mailbox_timeout(ms(mb)).reply_timeout(ms(rp)).send().await,
                }
                .map(Some)
                .map_err(|e| (send_code(&e), if let RemoteSendError::HandlerError(e) = e { Some(e) } else { None }))
            } else {
                let q = $r.tell(&m);
                match (immediate, mb) {
                    (true, _) => q.try_send().await,
                    (false, None) => q.send().await,
                    (false, Some(mb)) => q.mailbox_timeout(ms(mb)).send().await,
                }
                .map(|_| None)
                .map_err(|e| (send_code(&e), None::<Oops>))
            }
        }};
    }
    let res = tokio::time::timeout(GUARD, async {
        match &r {
            RRef::A(r) => go!(r),
            RRef::O(r) => go!(r),
        }
    })
    .await;
    match res {
        Err(_) => {
            open.ret(HANG, 0, "");
            HANG
        }
        Ok(Ok(Some(rep))) => {
            let good = rep == expect_ok(uid, idx, &m.payload, 0);
            open.ret(OK, good as i64, if good { String::new() } else { format!("got reply of {} by {}", rep.uid, rep.actor) });
            OK
        }
        Ok(Ok(None)) => {
            open.ret(OK, 1, "");
            OK
        }
        Ok(Err(((code, s), e))) => {
            let good = e.as_ref().is_none_or(|e| *e == expect_err(uid, idx, 1));
            open.ret(code, good as i64, s);
            code
        }
    }
}

pub async fn link_op(client: i64, a: i64, b: i64, link: bool, rr: bool) {
    let node = sim::current_node();
    let la = w(|w| w.actors.get(&a).filter(|x| x.node == node).map(|x| x.lref.clone()));
    let ra = w(|w| w.refs.get(&(node, a)).cloned());
    let Some(rb) = w(|w| w.refs.get(&(node, b)).cloned()) else { return };
    if a == b || if rr { ra.is_none() } else { la.is_none() } {
        return;
    }
    let uid = next_uid();
    log("inv", client, uid, a, node as i64, format!("{}{} b={b}", if link { "link" } else { "unlink" }, if rr { "rr" } else { "" }));
    let open = Open(client, uid, false);
    macro_rules! go {
        ($x:expr, $f:ident, $r:expr) => {
            match $r {
                RRef::A(r) => $x.$f(r).await,
                RRef::O(r) => $x.$f(r).await,
            }
        };
    }
    let r = tokio::time::timeout(GUARD, async {
        if rr {
            match (&ra.unwrap(), link) {
                (RRef::A(x), true) => go!(x, link_remote, &rb),
                (RRef::A(x), false) => go!(x, unlink_remote, &rb),
                (RRef::O(x), true) => go!(x, link_remote, &rb),
                (RRef::O(x), false) => go!(x, unlink_remote, &rb),
            }
        } else {
            match (&la.unwrap(), link) {
                (LRef::A(x), true) => go!(x, link_remote, &rb),
                (LRef::A(x), false) => go!(x, unlink_remote, &rb),
                (LRef::O(x), true) => go!(x, link_remote, &rb),
                (LRef::O(x), false) => go!(x, unlink_remote, &rb),
            }
        }
    })
    .await;
    let (code, s) = match r {
        Ok(Ok(())) => (OK, String::new()),
        Ok(Err(e)) => send_code(&e),
        Err(_) => (HANG, String::new()),
    };
    open.ret(code, 0, s);
}

fn name_of(n: u8) -> String {
    format!("x{n}")
}

fn client(me: i64, ops: Vec<Op>) -> futures::future::BoxFuture<'static, ()> {
    client_inner(me, ops).boxed()
}
async fn client_inner(me: i64, ops: Vec<Op>) {
    let mut pending = vec![];
    for op in ops {
        match op {
            Op::Req { actor, ask, immediate, mb, rp, delay, kind, len, nowait } => {
                let f = async move {
                    request(me, actor as i64, ask, immediate, mb, rp, delay, kind, len, "req").await;
                };
                if nowait {
                    pending.push(tokio::spawn(f));
                } else {
                    f.await
                }
            }
            Op::Stop(a) | Op::Kill(a) => {
                let kill = matches!(op, Op::Kill(_));
                let Some((l, node)) = w(|w| w.actors.get(&(a as i64)).map(|x| (x.lref.clone(), x.node))) else { continue };
                log("end", me, 0, a as i64, node as i64, if kill { "kill" } else { "stop" });
                on(node, async move {
                    match (l, kill) {
                        (LRef::A(a), true) => a.kill(),
                        (LRef::O(a), true) => a.kill(),
                        (LRef::A(a), false) => drop(a.stop_gracefully().await),
                        (LRef::O(a), false) => drop(a.stop_gracefully().await),
                    }
                });
            }
            Op::Sleep(ms) => tokio::time::sleep(Duration::from_millis(ms as u64)).await,
            Op::Lookup { name, wrong } => {
                lookup(me, &name_of(name), wrong, "lookup").await;
            }
            Op::Call { name, other } => {
                if let (FOUND, Some(r)) = lookup(me, &name_of(name), other, "lookup").await {
                    let idx = label(&r.id());
                    if idx >= 0 {
                        request(me, idx, true, false, None, None, 0, 0, 8, "req").await;
                    }
                }
            }
            Op::LookupLocal { name } => {
                let uid = next_uid();
                log("inv", me, uid, 0, sim::current_node() as i64, format!("local {}", name_of(name)));
                let open = Open(me, uid, false);
                let r = tokio::time::timeout(LONG, ActorRef::<Act>::lookup(&name_of(name))).await;
                let (code, val) = match r {
                    Ok(Ok(Some(r))) => (FOUND, label(&r.id())),
                    Ok(Ok(None)) => (NONE, -1),
                    Ok(Err(e)) => (reg_code(&e), -1),
                    Err(_) => (HANG, -1),
                };
                open.ret(code, val, "");
            }
            Op::Register { actor, name } => {
                let node = sim::current_node();
                if w(|w| w.actors.get(&(actor as i64)).is_some_and(|a| a.node == node)) {
                    register(me, actor as i64, name_of(name)).await;
                }
            }
            Op::Unregister { name } => {
                let uid = next_uid();
                log("inv", me, uid, 0, sim::current_node() as i64, format!("unregister {}", name_of(name)));
                let open = Open(me, uid, false);
                let r = tokio::time::timeout(LONG, ActorSwarm::get().unwrap().unregister(name_of(name))).await;
                let code = match r {
                    Ok(Ok(())) => OK,
                    Ok(Err(e)) => reg_code(&e),
                    Err(_) => HANG,
                };
                open.ret(code, 0, "");
            }
            Op::GiveUp { ms, nowait, op } => {
                let f = async move {
                    let mut f = client(me, vec![*op]);
                    if ms == 0 {
                        // polled once
                        let _ = futures::poll!(&mut f);
                    } else {
                        let _ = tokio::time::timeout(Duration::from_millis(ms as u64), f).await;
                    }
                };
                if nowait {
                    pending.push(tokio::spawn(f));
                } else {
                    f.await
                }
            }
            Op::Link { a, b } => link_op(me, a as i64, b as i64, true, false).await,
            Op::Unlink { a, b } => link_op(me, a as i64, b as i64, false, false).await,
            Op::LinkRR { a, b } => link_op(me, a as i64, b as i64, true, true).await,
            Op::UnlinkRR { a, b } => link_op(me, a as i64, b as i64, false, true).await,
        }
    }
    for p in pending {
        let _ = p.await;
    }
}

fn up(h: u8) -> bool {
    w(|w| w.hosts.get(&h).is_some_and(|x| x.up))
}

pub fn fault(f: &Fault, sc: &Scenario) -> Option<futures::future::BoxFuture<'static, ()>> {
    let log2 = |k: &str, a: u8, b: u8| {
        log("fault", a as i64, b as i64, 0, 0, k);
    };
    match f {
        Fault::Partition(a, b) => {
            log2("partition", *a, *b);
            net::partition(*a as Host, *b as Host)
        }
        Fault::Heal(a, b) => {
            log2("heal", *a, *b);
            net::heal(*a as Host, *b as Host)
        }
        Fault::Reset(a, b, all) => {
            log2("reset", *a, *b);
            net::reset(*a as Host, *b as Host, *all)
        }
        Fault::Crash(h) => {
            if !up(*h) {
                return None;
            }
            probe("crash");
            let node = w(|w| {
                let x = w.hosts.get_mut(h).unwrap();
                x.up = false;
                x.node
            });
            log("crash", *h as i64, node as i64, 0, 0, "");
            net::crash(*h as Host);
            sim::crash_node(node);
        }
        Fault::Restart(h) => {
            if up(*h) {
                return None;
            }
            probe("restart");
            let (h, sc) = (*h, sc.clone());
            return Some(
                async move {
                    let inc = w(|w| w.hosts[&h].incarnation) + 1;
                    let node = boot(h, inc, sc.deaf.contains(&h)).await;
                    for o in 0..sc.hosts {
                        if o != h && up(o) {
                            meet(h, o);
                            dial(h, o, false);
                        }
                    }
                    for (i, a) in sc.actors.iter().enumerate() {
                        if a.host == h {
                            let idx = i as i64 + 100 * inc as i64;
                            spawn_actor(idx, a.clone(), h).await;
                            if sc.rereg {
                                on(node, async move { register(-2, idx, format!("n{i}")).await });
                            }
                        }
                    }
                }
                .boxed(),
            );
        }
        Fault::Disconnect(a, b) => {
            if up(*a) {
                log2("disconnect", *a, *b);
                probe("disconnect_peer_id");
                let (node, peer) = w(|w| (w.hosts[a].node, w.hosts[b].peer));
                on(node, async move { ActorSwarm::get().unwrap().disconnect_peer_id(peer) });
            }
        }
        Fault::Dial(a, b) => {
            if up(*a) {
                log2("dial", *a, *b);
                probe("additional dial");
                dial(*a, *b, true);
            }
        }
        Fault::Net(l) => {
            probe("latency regime");
            net::set_latency(l.get());
        }
    }
    None
}

pub async fn ms(x: u64) {
    tokio::time::sleep(Duration::from_millis(x)).await
}

pub async fn run(sc: Scenario) {
    if sc.early.is_some() {
        return crate::early::run(sc).await;
    }
    if sc.discover.is_some() {
        return crate::discover::run(sc).await;
    }
    let _ = kameo::sim::CURRENT_NODE.set(|| sim::current_node() as u64);
    *W.lock().unwrap() = Some(World::default());
    net::install(CALM.get());
    for h in 0..sc.hosts {
        boot(h, 0, sc.deaf.contains(&h)).await;
    }
    for (a, b) in &sc.mdns {
        if a != b {
            meet(*a, *b);
        }
    }
    for (a, b) in &sc.dials {
        if a != b {
            dial(*a, *b, true);
        }
    }
    ms(1500).await;
    for (i, a) in sc.actors.iter().enumerate() {
        spawn_actor(i as i64, a.clone(), a.host).await;
    }
    let mut js = vec![];
    for (i, a) in sc.actors.iter().enumerate() {
        if !a.unregistered {
            let node = w(|w| w.hosts[&a.host].node);
            js.push(on(node, async move {
                for _ in 0..5 {
                    if register(-1, i as i64, format!("n{i}")).await == OK {
                        break;
                    }
                    ms(300).await;
                }
            }));
        }
    }
    for j in js {
        let _ = j.await;
    }
    ms(300).await;
    let mut js = vec![];
    for h in 0..sc.hosts {
        let node = w(|w| w.hosts[&h].node);
        for (i, a) in sc.actors.iter().enumerate() {
            if a.unregistered {
                continue;
            }
            let other = a.other;
            js.push(on(node, async move {
                for _ in 0..3 {
                    if lookup(-1, &format!("n{i}"), other, "lookup").await.1.is_some() {
                        break;
                    }
                    ms(300).await;
                }
            }));
        }
    }
    for j in js {
        let _ = j.await;
    }
    if let Some(e) = sc.evil.clone() {
        crate::evil::run(sc.hosts, e).await;
    }
    net::set_latency(sc.lat.get());
    log("go", 0, 0, 0, 0, "");
    let mut js = vec![];
    for (c, (host, ops)) in sc.clients.iter().enumerate() {
        let node = w(|w| w.hosts[host].node);
        js.push(run_on(node, sc.threads, client(c as i64, ops.clone())));
    }
    let mut side = vec![];
    {
        let mut t = 0;
        let mut fs = sc.faults.clone();
        fs.sort_by_key(|f| f.0);
        for (at, f) in &fs {
            ms(at.saturating_sub(t) as u64).await;
            t = t.max(*at);
            if let Some(f) = fault(f, &sc) {
                side.push(tokio::spawn(f));
            }
        }
    }
    for s in side {
        let _ = s.await;
    }
    // nobody waits for an operation longer than its guard
    for j in js {
        let _ = tokio::time::timeout(Duration::from_secs(400), j).await;
    }
    // faults are over
    for a in 0..sc.hosts {
        for b in a + 1..sc.hosts {
            net::heal(a as Host, b as Host);
        }
    }
    net::set_latency(CALM.get());
    log("calm", 0, 0, 0, 0, "");
    ms(13_000).await;
    for a in 0..sc.hosts {
        for b in a + 1..sc.hosts {
            if up(a) && up(b) {
                meet(a, b);
                if sc.deaf.contains(&b) {
                    dial(b, a, false);
                } else {
                    dial(a, b, false);
                }
            }
        }
    }
    ms(3000).await;
    log("settled", 0, 0, 0, 0, "");
    // liveness: everybody can reach every actor which still runs, once they had a chance to connect again
    let running = || -> Vec<i64> {
        w(|w| w.actors.iter().filter(|(_, a)| w.hosts[&a.host].node == a.node && w.hosts[&a.host].up).map(|(i, _)| *i).collect())
    };
    let mut js = vec![];
    for h in (0..sc.hosts).filter(|h| up(*h)) {
        let node = w(|w| w.hosts[&h].node);
        for idx in running() {
            let theirs = w(|w| w.actors[&idx].host);
            let redial = sc.deaf.contains(&theirs);
            js.push(on(node, async move {
                // a request during another ongoing dial fails at once, those whom nobody can dial may have been left since,
                // and connections whose other end is gone break at the first use
                for k in 0..4 {
                    ms(k * 500).await;
                    let c = request(-3, idx, true, false, None, None, 0, 0, 16, "warm").await;
                    if !matches!(c, DIAL | IO | CLOSED | NET_TIMEOUT) {
                        break;
                    }
                    if c == DIAL && redial && up(theirs) {
                        dial(theirs, h, false);
                    }
                }
            }));
        }
    }
    for j in js {
        let _ = j.await;
    }
    ms(1000).await;
    let mut js = vec![];
    for h in (0..sc.hosts).filter(|h| up(*h)) {
        let node = w(|w| w.hosts[&h].node);
        for idx in running() {
            js.push(on(node, async move {
                request(-3, idx, true, false, None, None, 0, 0, 16, "final").await;
            }));
        }
    }
    // lookups may dial
    for j in std::mem::take(&mut js) {
        let _ = j.await;
    }
    for h in (0..sc.hosts).filter(|h| up(*h)) {
        let node = w(|w| w.hosts[&h].node);
        for (i, a) in sc.actors.iter().enumerate() {
            if !a.unregistered {
                let other = a.other;
                js.push(on(node, async move {
                    lookup(-3, &format!("n{i}"), other, "final-lookup").await;
                }));
            }
        }
        let mut names: Vec<u8> = sc
            .clients
            .iter()
            .flat_map(|c| c.1.iter())
            .filter_map(|o| match o {
                Op::Register { name, .. } | Op::Lookup { name, .. } | Op::LookupLocal { name } | Op::Call { name, .. } => Some(*name),
                _ => None,
            })
            .collect();
        names.sort();
        names.dedup();
        for n in names {
            js.push(on(node, async move {
                for other in [false, true] {
                    lookup(-3, &name_of(n), other, "final-lookup").await;
                }
            }));
        }
    }
    for j in js {
        let _ = j.await;
    }
    ms(500).await;
    log("over", 0, 0, 0, 0, "");
}
