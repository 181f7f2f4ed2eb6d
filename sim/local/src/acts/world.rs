//! The simulated world of the helper actors: a pool, pubsub, broker or message bus, scripted clients,
//! workers and subscribers.
use futures::FutureExt;
use glob::Pattern;
use kameo::actor::{ActorRef, WeakActorRef};
use kameo::error::{PanicError, SendError};
use kameo::mailbox::{self, MailboxReceiver, MailboxSender};
use kameo::message::{Context, Message};
use kameo::Actor;
use kameo_actors::broker::{self, Broker};
use kameo_actors::message_bus::{self, MessageBus};
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use kameo_actors::pubsub::{self, PubSub};
use kameo_actors::DeliveryStrategy;
use serde::{Deserialize, Serialize};
use simrt::{log, probe};
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Mutex;
use std::time::Duration;

use crate::world::{End, HErr, FULL, HANDLER, NOT_RUNNING, OK, PANICKED, STOPPED, TIMEOUT_MSG, TIMEOUT_NONE};

pub const TOPICS: &[&str] = &["a", "a/b", "a/b/c", "x/b", ".h", "A/b", "a/.h"];
pub const PATTERNS: &[&str] = &["*", "a/*", "*/b", "a/b", "**", "a/**", "[ax]/b", "?", "a/*/c", "nope", ".h", "*/*"];
pub const FILTERS: usize = 5;
/// the filters a subscriber may pass (by index)
pub fn accepts(f: usize, id: u64, topic: u8) -> bool {
    match f {
        0 => true,
        1 => id % 2 == 0,
        2 => topic == 1,
        3 => false,
        _ => topic != 1,
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Strat {
    Guaranteed,
    BestEffort,
    Timed(u64),
    Spawned,
    SpawnedTimed(u64),
}
impl Strat {
    fn real(self) -> DeliveryStrategy {
        match self {
            Strat::Guaranteed => DeliveryStrategy::Guaranteed,
            Strat::BestEffort => DeliveryStrategy::BestEffort,
            Strat::Timed(d) => DeliveryStrategy::TimedDelivery(simrt::ms(d)),
            Strat::Spawned => DeliveryStrategy::Spawned,
            Strat::SpawnedTimed(d) => DeliveryStrategy::SpawnedWithTimeout(simrt::ms(d)),
        }
    }
    pub fn spawned(self) -> bool {
        matches!(self, Strat::Spawned | Strat::SpawnedTimed(_))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HubKind {
    Pool { size: usize, asyncf: Option<u64>, wcap: Option<usize>, prefill: u64 },
    PubSub,
    Broker(Strat),
    Bus(Strat),
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct SubSpec {
    pub cap: Option<usize>,
    /// how long the k-th message takes (cyclic, ms)
    pub slow: Vec<u64>,
    /// ends while handling its k-th message
    pub dies: Option<(u64, u8)>,
    pub start: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum How {
    Tell,
    Ask,
    Enq,
    Try,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub id: u64,
    /// milliseconds; 0 is immediate, values above 1000 are `n - 1000` yields
    pub work: Vec<u64>,
    pub end: End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Sleep(u64),
    Yield(u32),
    Dispatch { how: How, j: Job },
    Broadcast { how: How, j: Job },
    /// ends the k-th worker that is still alive
    EndWorker { k: usize, kill: bool },
    EndHub { kill: bool },
    Sub { how: How, s: usize, pat: usize, f: usize },
    Unsub { how: How, s: usize, pat: Option<usize> },
    Publish { how: How, id: u64, topic: u8 },
    EndSub { s: usize, kill: bool },
    /// a message straight to a subscriber (fills its mailbox)
    Direct { s: usize, id: u64 },
    Collect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub hub: HubKind,
    pub hub_cap: Option<usize>,
    pub subs: Vec<SubSpec>,
    /// (factory call, fault): 0 dead on arrival, 1 startup fails
    pub bad: Vec<(u64, u8)>,
    pub tasks: Vec<Vec<Op>>,
    pub horizon: u64,
}

pub enum Hub {
    Pool(ActorRef<ActorPool<Wrk>>),
    PubSub(ActorRef<PubSub<Note<0>>>),
    Broker(ActorRef<Broker<Note<0>>>),
    Bus(ActorRef<MessageBus>),
}
impl Clone for Hub {
    fn clone(&self) -> Self {
        match self {
            Hub::Pool(a) => Hub::Pool(a.clone()),
            Hub::PubSub(a) => Hub::PubSub(a.clone()),
            Hub::Broker(a) => Hub::Broker(a.clone()),
            Hub::Bus(a) => Hub::Bus(a.clone()),
        }
    }
}

struct World {
    uid: i64,
    next_worker: u64,
    workers: Vec<WeakActorRef<Wrk>>,
    subs: Vec<Option<ActorRef<Sub>>>,
    weak: Vec<WeakActorRef<Sub>>,
    bad: Vec<(u64, u8)>,
    wcap: Option<usize>,
    prefill: u64,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    simrt::sim::no_preempt(|| f(WORLD.lock().unwrap_or_else(|e| e.into_inner()).as_mut().expect("world")))
}
fn uid() -> i64 {
    world(|w| {
        w.uid += 1;
        w.uid
    })
}

struct Span(i64, i64, bool);
impl Span {
    fn open(w: usize, id: i64, s: &str) -> Span {
        log("h+", w as i64, id, 0, 0, s);
        Span(w as i64, id, false)
    }
    fn close(&mut self, code: i64) {
        self.2 = true;
        log("h-", self.0, self.1, code, 0, "");
    }
}
impl Drop for Span {
    fn drop(&mut self) {
        if !self.2 {
            log("h!", self.0, self.1, 0, 0, "");
        }
    }
}
async fn work(n: u64) {
    match n {
        0 => {}
        1..=1000 | 100_000.. => tokio::time::sleep(simrt::ms(n)).await,
        _ => {
            for _ in 1000..n {
                tokio::task::yield_now().await
            }
        }
    }
}

// ---- workers -------------------------------------------------------------------------------------

pub struct Wrk {
    idx: usize,
    bad_start: bool,
}
impl Actor for Wrk {
    type Error = HErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HErr> {
        log("start+", self.idx as i64, 0, 0, 0, "");
        log("start-", self.idx as i64, 0, self.bad_start as i64, 0, "");
        if self.bad_start {
            return Err(HErr(0));
        }
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<kameo::error::ActorStopReason>, HErr> {
        log("pan+", self.idx as i64, 0, 0, 0, "");
        log("pan-", self.idx as i64, 0, 0, 0, "");
        Ok(ControlFlow::Break(kameo::error::ActorStopReason::Killed))
    }
}
impl Drop for Wrk {
    fn drop(&mut self) {
        log("drop", self.idx as i64, 0, 0, 0, "");
    }
}
impl Message<Job> for Wrk {
    type Reply = Result<u64, HErr>;
    async fn handle(&mut self, j: Job, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let mut s = Span::open(self.idx, j.id as i64, "");
        for w in j.work {
            work(w).await;
        }
        match j.end {
            End::Ok => {
                s.close(0);
                Ok(j.id * 7 + 3)
            }
            End::Err => {
                probe("job error");
                s.close(1);
                Err(HErr(j.id))
            }
            End::Panic => {
                probe("job panic");
                s.close(2);
                panic!("job {}", j.id)
            }
        }
    }
}
fn box_of<A: Actor>(cap: Option<usize>) -> (MailboxSender<A>, MailboxReceiver<A>) {
    match cap {
        Some(n) => mailbox::bounded(n),
        None => mailbox::unbounded(),
    }
}
/// one factory call
fn new_worker() -> ActorRef<Wrk> {
    let (idx, bad, cap, prefill) = world(|w| {
        w.next_worker += 1;
        let k = w.next_worker - 1;
        (k as usize, w.bad.iter().find(|b| b.0 == k).map(|b| b.1), w.wcap, w.prefill)
    });
    log("spawn", idx as i64, 0, 0, 0, "");
    let r = kameo::actor::spawn_with_mailbox(Wrk { idx, bad_start: bad == Some(1) }, box_of(cap));
    world(|w| w.workers.push(r.downgrade()));
    if bad.is_some() {
        probe("worker fails at birth");
    }
    for p in 0..prefill {
        let id = 800_000 + idx as u64 * 10 + p;
        let _ = r.tell(Job { id, work: vec![2], end: End::Ok }).try_send();
    }
    if bad == Some(0) {
        log("doa", idx as i64, 0, 0, 0, "");
        r.kill();
    }
    r
}

// ---- subscribers ---------------------------------------------------------------------------------

pub struct Sub {
    idx: usize,
    spec: SubSpec,
    handled: u64,
}
impl Actor for Sub {
    type Error = HErr;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), HErr> {
        log("start+", self.idx as i64, 0, 0, 0, "");
        work(self.spec.start).await;
        log("start-", self.idx as i64, 0, 0, 0, "");
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<kameo::error::ActorStopReason>, HErr> {
        log("pan+", self.idx as i64, 0, 0, 0, "");
        log("pan-", self.idx as i64, 0, 0, 0, "");
        Ok(ControlFlow::Break(kameo::error::ActorStopReason::Killed))
    }
}
impl Drop for Sub {
    fn drop(&mut self) {
        log("drop", self.idx as i64, 0, 0, 0, "");
    }
}
#[derive(Clone, Debug)]
pub struct Note<const T: u8> {
    pub id: u64,
    pub topic: u8,
}
pub struct Direct(u64);
impl Sub {
    async fn take(&mut self, id: u64, kind: &str) -> Result<(), HErr> {
        let mut s = Span::open(self.idx, id as i64, kind);
        let k = self.handled;
        self.handled += 1;
        if !self.spec.slow.is_empty() {
            work(self.spec.slow[k as usize % self.spec.slow.len()]).await;
        }
        match self.spec.dies {
            Some((n, 0)) if n == k => {
                probe("subscriber panic");
                s.close(2);
                panic!("sub {}", self.idx)
            }
            Some((n, 1)) if n == k => {
                probe("subscriber error");
                s.close(1);
                Err(HErr(id))
            }
            _ => {
                s.close(0);
                Ok(())
            }
        }
    }
}
impl<const T: u8> Message<Note<T>> for Sub {
    type Reply = Result<(), HErr>;
    async fn handle(&mut self, n: Note<T>, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.take(n.id, ["n0", "n1", "n2"][T as usize]).await
    }
}
impl Message<Direct> for Sub {
    type Reply = Result<(), HErr>;
    async fn handle(&mut self, d: Direct, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.take(d.0, "direct").await
    }
}

// ---- clients -------------------------------------------------------------------------------------

fn code_of<M, E>(e: &SendError<M, E>) -> i64 {
    match e {
        SendError::ActorNotRunning(_) => NOT_RUNNING,
        SendError::ActorStopped => STOPPED,
        SendError::MailboxFull(_) => FULL,
        SendError::HandlerError(_) => HANDLER,
        SendError::Timeout(Some(_)) => TIMEOUT_MSG,
        SendError::Timeout(None) => TIMEOUT_NONE,
    }
}
fn text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default()
}
type Out = (i64, i64, String);
type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
#[derive(Default)]
struct Pend(Vec<(i64, BoxFut<Out>)>);

async fn record(who: i64, u: i64, f: impl Future<Output = Out>) {
    match AssertUnwindSafe(f).catch_unwind().await {
        Ok((c, v, s)) => log("ret", who, u, c, v, s),
        Err(e) => log("ret", who, u, PANICKED, 0, text(e)),
    };
}

/// Sends any message to any hub in the chosen way; `ok`/`err` describe the reply.
async fn send<A, M, T, E>(who: i64, u: i64, r: &ActorRef<A>, how: How, m: M, pend: &mut Pend, ok: fn(T) -> Out, err: fn(&SendError<M, E>) -> Out)
where
    A: Actor + Message<M>,
    M: Send + 'static,
    A::Reply: kameo::Reply<Ok = T, Error = E>,
    T: Send + 'static,
    E: kameo::reply::ReplyError,
{
    match how {
        How::Tell => {
            record(who, u, async {
                match r.tell(m).await {
                    Ok(()) => (OK, 0, String::new()),
                    Err(e) => (code_of(&e), 0, String::new()),
                }
            })
            .await
        }
        How::Try => {
            record(who, u, async {
                match r.tell(m).try_send() {
                    Ok(()) => (OK, 0, String::new()),
                    Err(e) => (code_of(&e), 0, String::new()),
                }
            })
            .await
        }
        How::Ask => {
            record(who, u, async {
                match r.ask(m).await {
                    Ok(v) => ok(v),
                    Err(e) => err(&e),
                }
            })
            .await
        }
        How::Enq => {
            let r: &'static ActorRef<A> = Box::leak(Box::new(r.clone()));
            let res = AssertUnwindSafe(async {
                match r.ask(m).enqueue().await {
                    Ok(p) => Ok(p),
                    Err(e) => Err((code_of(&e), 0, String::new())),
                }
            })
            .catch_unwind()
            .await;
            match res {
                Ok(Ok(p)) => {
                    log("enq", who, u, 0, 0, "");
                    let f: BoxFut<Out> = Box::pin(async move {
                        match p.await {
                            Ok(v) => ok(v),
                            Err(e) => err(&e),
                        }
                    });
                    pend.0.push((u, f));
                }
                Ok(Err((c, v, s))) => {
                    log("ret", who, u, c, v, s);
                }
                Err(e) => {
                    log("ret", who, u, PANICKED, 0, text(e));
                }
            }
        }
    }
}
async fn collect(who: i64, p: &mut Pend) {
    for (u, f) in std::mem::take(&mut p.0) {
        log("cinv", who, u, 0, 0, "");
        record(who, u, f).await;
    }
}
fn how_str(h: How) -> &'static str {
    match h {
        How::Tell => "Tell",
        How::Ask => "Ask",
        How::Enq => "Enq",
        How::Try => "TryTell",
    }
}
fn unit(_: ()) -> Out {
    (OK, 0, String::new())
}
fn unit_err<M>(e: &SendError<M, kameo::error::Infallible>) -> Out {
    (code_of(e), 0, String::new())
}

fn bcast_out(v: Vec<Result<(), SendError<Job, HErr>>>) -> Out {
    let oks = v.iter().filter(|r| r.is_ok()).count();
    let s = v
        .iter()
        .map(|r| match r {
            Ok(()) => "0".to_string(),
            Err(e) => code_of(e).to_string(),
        })
        .collect::<Vec<_>>()
        .join(",");
    (OK, (v.len() * 1000 + oks) as i64, s)
}

fn note_pub<const T: u8>(id: u64, topic: u8) -> Note<T> {
    Note { id, topic }
}
fn filter_of(f: usize) -> fn(&Note<0>) -> bool {
    match f {
        0 => |n| accepts(0, n.id, n.topic),
        1 => |n| accepts(1, n.id, n.topic),
        2 => |n| accepts(2, n.id, n.topic),
        3 => |n| accepts(3, n.id, n.topic),
        _ => |n| accepts(4, n.id, n.topic),
    }
}

async fn bus_pub<const T: u8>(who: i64, u: i64, r: &ActorRef<MessageBus>, how: How, id: u64, topic: u8, pend: &mut Pend) {
    send(who, u, r, how, message_bus::Publish(note_pub::<T>(id, topic)), pend, unit, unit_err).await
}
async fn bus_sub<const T: u8>(who: i64, u: i64, r: &ActorRef<MessageBus>, how: How, s: ActorRef<Sub>, un: bool, pend: &mut Pend) {
    if un {
        send(who, u, r, how, message_bus::Unregister::<Note<T>>::new(s.id()), pend, unit, unit_err).await
    } else {
        send(who, u, r, how, message_bus::Register(s.recipient::<Note<T>>()), pend, unit, unit_err).await
    }
}

async fn run_op(who: i64, hub: &Hub, op: Op, pend: &mut Pend) {
    let u = uid();
    match op {
        Op::Sleep(n) => tokio::time::sleep(simrt::ms(n)).await,
        Op::Yield(n) => {
            for _ in 0..n {
                tokio::task::yield_now().await
            }
        }
        Op::Collect => collect(who, pend).await,
        Op::Dispatch { how, j } => {
            let Hub::Pool(r) = hub else { return };
            log("inv", who, u, j.id as i64, 0, format!("{} dispatch", how_str(how)));
            send(who, u, r, how, Dispatch(j), pend, |v: u64| (OK, v as i64, String::new()), |e: &SendError<Dispatch<Job>, HErr>| {
                let v = match e {
                    SendError::HandlerError(h) => h.0 as i64,
                    SendError::ActorNotRunning(Dispatch(j)) => j.id as i64,
                    _ => 0,
                };
                (code_of(e), v, String::new())
            })
            .await
        }
        Op::Broadcast { how, j } => {
            let Hub::Pool(r) = hub else { return };
            log("inv", who, u, j.id as i64, 0, format!("{} broadcast", how_str(how)));
            send(who, u, r, how, Broadcast(j), pend, bcast_out, unit_err).await
        }
        Op::EndWorker { k, kill } => {
            let live: Vec<_> = world(|w| w.workers.iter().enumerate().filter_map(|(i, r)| r.upgrade().map(|r| (i, r))).filter(|(_, r)| r.is_alive()).collect());
            if live.is_empty() {
                return;
            }
            let (i, r) = &live[k % live.len()];
            log("inv", who, u, 0, *i as i64, if kill { "kill" } else { "stop" });
            probe("worker ended");
            if kill {
                r.kill();
            } else {
                let _ = r.stop_gracefully().await;
            }
            log("ret", who, u, OK, 0, "");
        }
        Op::EndHub { kill } => {
            log("inv", who, u, 0, -1, if kill { "hubkill" } else { "hubstop" });
            macro_rules! end {
                ($r:expr) => {
                    if kill {
                        $r.kill()
                    } else {
                        let _ = $r.stop_gracefully().await;
                    }
                };
            }
            match hub {
                Hub::Pool(r) => end!(r),
                Hub::PubSub(r) => end!(r),
                Hub::Broker(r) => end!(r),
                Hub::Bus(r) => end!(r),
            }
            log("ret", who, u, OK, 0, "");
        }
        Op::Sub { how, s, pat, f } => {
            let Some(Some(sub)) = world(|w| w.subs.get(s).cloned()) else { return };
            log("inv", who, u, pat as i64, s as i64, format!("{} sub f={f}", how_str(how)));
            match hub {
                Hub::Pool(_) => {}
                Hub::PubSub(r) => {
                    if f == 0 {
                        send(who, u, r, how, pubsub::Subscribe(sub), pend, unit, unit_err).await
                    } else {
                        send(who, u, r, how, pubsub::SubscribeFilter(sub, filter_of(f)), pend, unit, unit_err).await
                    }
                }
                Hub::Broker(r) => {
                    let m = broker::Subscribe { topic: Pattern::new(PATTERNS[pat]).unwrap(), recipient: sub.recipient::<Note<0>>() };
                    send(who, u, r, how, m, pend, unit, unit_err).await
                }
                Hub::Bus(r) => match pat {
                    0 => bus_sub::<0>(who, u, r, how, sub, false, pend).await,
                    1 => bus_sub::<1>(who, u, r, how, sub, false, pend).await,
                    _ => bus_sub::<2>(who, u, r, how, sub, false, pend).await,
                },
            }
        }
        Op::Unsub { how, s, pat } => {
            let Some(Some(sub)) = world(|w| w.subs.get(s).cloned()) else { return };
            log("inv", who, u, pat.map(|p| p as i64).unwrap_or(-1), s as i64, format!("{} unsub", how_str(how)));
            match hub {
                Hub::Broker(r) => {
                    let m = broker::Unsubscribe { topic: pat.map(|p| Pattern::new(PATTERNS[p]).unwrap()), actor_id: sub.id() };
                    send(who, u, r, how, m, pend, unit, unit_err).await
                }
                Hub::Bus(r) => match pat {
                    Some(0) => bus_sub::<0>(who, u, r, how, sub, true, pend).await,
                    Some(1) => bus_sub::<1>(who, u, r, how, sub, true, pend).await,
                    _ => bus_sub::<2>(who, u, r, how, sub, true, pend).await,
                },
                _ => {}
            }
        }
        Op::Publish { how, id, topic } => {
            log("inv", who, u, id as i64, topic as i64, format!("{} publish", how_str(how)));
            match hub {
                Hub::Pool(_) => {}
                Hub::PubSub(r) => send(who, u, r, how, pubsub::Publish(note_pub::<0>(id, topic)), pend, unit, unit_err).await,
                Hub::Broker(r) => {
                    let m = broker::Publish { topic: TOPICS[topic as usize].to_string(), message: note_pub::<0>(id, topic) };
                    send(who, u, r, how, m, pend, unit, unit_err).await
                }
                Hub::Bus(r) => match topic {
                    0 => bus_pub::<0>(who, u, r, how, id, topic, pend).await,
                    1 => bus_pub::<1>(who, u, r, how, id, topic, pend).await,
                    _ => bus_pub::<2>(who, u, r, how, id, topic, pend).await,
                },
            }
        }
        Op::EndSub { s, kill } => {
            let Some(Some(sub)) = world(|w| w.subs.get(s).cloned()) else { return };
            log("inv", who, u, 0, s as i64, if kill { "kill" } else { "stop" });
            probe("subscriber ended");
            if kill {
                sub.kill();
                log("ret", who, u, OK, 0, "");
            } else {
                let _ = sub.stop_gracefully().await;
                log("ret", who, u, OK, 0, "");
            }
        }
        Op::Direct { s, id } => {
            let Some(Some(sub)) = world(|w| w.subs.get(s).cloned()) else { return };
            log("inv", who, u, id as i64, s as i64, "TryTell direct");
            let r = sub.tell(Direct(id)).try_send();
            log("ret", who, u, r.as_ref().map(|_| OK).unwrap_or_else(code_of), 0, "");
        }
    }
}

pub async fn run(sc: Scenario) {
    let (wcap, prefill) = match &sc.hub {
        HubKind::Pool { wcap, prefill, .. } => (*wcap, *prefill),
        _ => (None, 0),
    };
    *WORLD.lock().unwrap() = Some(World {
        uid: 0,
        next_worker: 0,
        workers: vec![],
        subs: vec![],
        weak: vec![],
        bad: sc.bad.clone(),
        wcap,
        prefill,
    });
    kameo::error::set_actor_error_hook(|_| {});
    for (i, s) in sc.subs.iter().enumerate() {
        log("spawn", i as i64, 0, 0, 0, "");
        let r = kameo::actor::spawn_with_mailbox(Sub { idx: i, spec: s.clone(), handled: 0 }, box_of(s.cap));
        world(|w| {
            w.weak.push(r.downgrade());
            w.subs.push(Some(r));
        });
    }
    let made = AssertUnwindSafe(async {
        match &sc.hub {
            HubKind::Pool { size, asyncf: None, .. } => Hub::Pool(kameo::actor::spawn_with_mailbox(ActorPool::new(*size, new_worker), box_of(sc.hub_cap))),
            HubKind::Pool { size, asyncf: Some(ms), .. } => {
                let ms = *ms;
                let p = ActorPool::new_async(*size, move || async move {
                    work(ms).await;
                    new_worker()
                })
                .await;
                Hub::Pool(kameo::actor::spawn_with_mailbox(p, box_of(sc.hub_cap)))
            }
            HubKind::PubSub => Hub::PubSub(kameo::actor::spawn_with_mailbox(PubSub::new(), box_of(sc.hub_cap))),
            HubKind::Broker(s) => Hub::Broker(kameo::actor::spawn_with_mailbox(Broker::new(s.real()), box_of(sc.hub_cap))),
            HubKind::Bus(s) => Hub::Bus(kameo::actor::spawn_with_mailbox(MessageBus::new(s.real()), box_of(sc.hub_cap))),
        }
    })
    .catch_unwind()
    .await;
    let hub = match made {
        Ok(h) => h,
        Err(e) => {
            log("hubpanic", -1, 0, 0, 0, text(e));
            log("alldone", -1, 0, 0, 0, "");
            log("end", -1, 0, 0, 0, "");
            return;
        }
    };
    let mut tasks = vec![];
    for (t, ops) in sc.tasks.iter().enumerate() {
        let (who, ops, hub) = (t as i64, ops.clone(), hub.clone());
        tasks.push(tokio::spawn(async move {
            let mut p = Pend::default();
            for op in ops {
                run_op(who, &hub, op, &mut p).await;
            }
            collect(who, &mut p).await;
            log("tdone", who, 0, 0, 0, "");
        }));
    }
    tokio::select! {
        _ = futures::future::join_all(tasks) => { log("alldone", -1, 0, 0, 0, ""); }
        _ = tokio::time::sleep(simrt::ms(60_000)) => { log("deadline", -1, 0, 0, 0, ""); }
    }
    tokio::time::sleep(simrt::ms(sc.horizon)).await;
    log("settled", -1, 0, 0, 0, "");
    // what is left, probed from outside
    let mut p = Pend::default();
    let alive = match &hub {
        Hub::Pool(r) => r.is_alive(),
        Hub::PubSub(r) => r.is_alive(),
        Hub::Broker(r) => r.is_alive(),
        Hub::Bus(r) => r.is_alive(),
    };
    log("hub", -1, 0, alive as i64, 0, "");
    if alive {
        let probes = async {
            match &hub {
                Hub::Pool(_) => run_op(-2, &hub, Op::Broadcast { how: How::Ask, j: Job { id: 900_000, work: vec![], end: End::Ok } }, &mut p).await,
                Hub::PubSub(_) | Hub::Broker(_) | Hub::Bus(_) => {
                    let n = match hub {
                        Hub::PubSub(_) => 2,
                        Hub::Broker(_) => TOPICS.len() as u8,
                        _ => 3,
                    };
                    for t in 0..n {
                        for k in 0..2 {
                            run_op(-2, &hub, Op::Publish { how: How::Ask, id: 900_000 + t as u64 * 2 + k, topic: t }, &mut p).await;
                        }
                    }
                }
            }
        };
        let _ = tokio::time::timeout(simrt::ms(60_000), probes).await;
    }
    tokio::time::sleep(simrt::ms(sc.horizon)).await;
    let (workers, weak) = world(|w| (w.workers.iter().map(|r| r.upgrade().map(|r| r.is_alive()).unwrap_or(false)).collect::<Vec<_>>(), w.weak.clone()));
    for (i, a) in workers.iter().enumerate() {
        log("final", i as i64, 0, *a as i64, 0, "");
    }
    world(|w| w.subs.clear());
    for (i, r) in weak.iter().enumerate() {
        let alive = r.upgrade().map(|r| r.is_alive()).unwrap_or(false);
        log("final", i as i64, 0, alive as i64, r.strong_count() as i64, "");
    }
    log("end", -1, 0, 0, 0, "");
}
