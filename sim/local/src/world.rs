//! The simulated local world: scripted actors and clients driving the real kameo crate.
use futures::{FutureExt, Stream};
use kameo::actor::{ActorID, ActorRef, PreparedActor, Recipient, WeakActorRef, WeakRecipient};
use kameo::error::{ActorStopReason, PanicError, SendError};
use kameo::mailbox::{self, MailboxReceiver, MailboxSender, Signal};
use kameo::message::{BoxMessage, Context, Message, StreamMessage};
use kameo::reply::{BoxReplySender, DelegatedReply, ForwardedReply, ReplyError, ReplySender};
use kameo::request::{BlockingPendingReply, PendingReply};
use kameo::{Actor, Reply};
use serde::{Deserialize, Serialize};
use simrt::{log, probe};
use std::any::Any;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::ops::ControlFlow;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Mutex, MutexGuard};
use std::task::{Context as Cx, Poll};
use std::time::Duration;

// ---- scenario ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum End {
    Ok,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum PanicHook {
    Default,
    Continue,
    BreakNormal,
    BreakKilled,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum LinkHook {
    Default,
    Continue,
    BreakNormal,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum SpawnHow {
    Plain,
    Prepared,
    /// `PreparedActor::run` inside a plain task
    Run,
    /// own OS thread
    Thread,
    /// `spawn_link` to an earlier actor
    Link(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ActorSpec {
    pub cap: Option<usize>,
    pub how: SpawnHow,
    /// spawned by an `Op::Spawn` instead of at the beginning
    pub late: bool,
    pub start: Vec<Op>,
    pub start_end: End,
    pub panic_hook: PanicHook,
    pub panic_body: Vec<Op>,
    pub link_hook: LinkHook,
    pub link_body: Vec<Op>,
    pub stop_body: Vec<Op>,
    pub stop_end: End,
    /// overrides `Actor::next`
    #[serde(default)]
    pub next: Option<NextSpec>,
    /// overrides `Actor::on_message` in another way than to log it
    #[serde(default)]
    pub onmsg: OnMsg,
}
/// How an actor takes its messages out of the mailbox.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Take {
    Recv,
    Poll,
    /// `try_recv`, then `recv`
    TryFirst,
    /// `recv_many` into its own buffer
    Many(usize),
    PollMany(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct NextSpec {
    pub take: Take,
    /// yields before it takes one
    pub slow: u32,
    /// ms between messages of its own
    pub ticks: Vec<u64>,
    /// ends the actor after so many ms: with a stop signal or with the end of its messages
    pub end: Option<(u64, bool)>,
    /// calls that panic
    pub panics: Vec<u64>,
    /// call that closes the mailbox
    pub close: Option<u64>,
}
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
pub enum OnMsg {
    #[default]
    Now,
    /// holds messages back until there are so many or none came for a while, and handles the youngest first
    Batch(usize),
    /// drops every n-th unhandled
    Refuse(u64),
    /// panics instead of every n-th
    Panic(u64),
}
impl Default for ActorSpec {
    fn default() -> Self {
        ActorSpec {
            cap: None,
            how: SpawnHow::Plain,
            late: false,
            start: vec![],
            start_end: End::Ok,
            panic_hook: PanicHook::Default,
            panic_body: vec![],
            link_hook: LinkHook::Default,
            link_body: vec![],
            stop_body: vec![],
            stop_end: End::Ok,
            next: None,
            onmsg: OnMsg::Now,
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum How {
    Tell,
    TryTell,
    BlockTell,
    Ask,
    TryAsk,
    BlockAsk,
    Enq,
    TryEnq,
    BlockEnq,
}
impl How {
    pub fn is_ask(self) -> bool {
        !matches!(self, How::Tell | How::TryTell | How::BlockTell)
    }
    pub fn is_try(self) -> bool {
        matches!(self, How::TryTell | How::TryAsk | How::TryEnq)
    }
    pub fn blocking(self) -> bool {
        matches!(self, How::BlockTell | How::BlockAsk | How::BlockEnq)
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum DelegHow {
    /// `ctx.reply(..)` at the end of the handler
    Now,
    /// a spawned task replies after so many ms
    Task(u64),
    /// the sender is dropped unanswered
    Drop,
    /// kept in the actor; answered by a later `Unstash`
    Stash,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FwdHow {
    Async,
    Try,
    Block,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Plain,
    Deleg(DelegHow),
    Fwd(usize, FwdHow),
    /// forwarded twice
    Fwd2(usize, FwdHow, usize, FwdHow),
}
/// operations on the registry as a whole
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum RegOp {
    Insert,
    /// registers an actor of another type
    RegOther,
    InsertOther,
    Contains,
    Len,
    Names,
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MsgSpec {
    pub id: u64,
    pub kind: Kind,
    pub body: Vec<Op>,
    pub end: End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Sleep(u64),
    /// installs the first or the second error hook
    ErrHook(bool),
    Yield(u32),
    Send {
        to: usize,
        how: How,
        /// mailbox and reply timeouts (ms)
        mt: Option<u64>,
        rt: Option<u64>,
        /// the caller gives up (drops the future) after so many ms
        #[serde(default)]
        cx: Option<u64>,
        recipient: bool,
        m: MsgSpec,
    },
    /// awaits all enqueued replies of this task
    Collect,
    Stop { to: usize, recipient: bool },
    Kill { to: usize, recipient: bool },
    Link { a: usize, b: usize, block: bool },
    Unlink { a: usize, b: usize, block: bool },
    WaitStart { to: usize, result: bool },
    WaitStop { to: usize, result: bool },
    Spawn(usize),
    /// drops the world's strong reference
    Drop(usize),
    /// takes an own strong reference or recipient (and drops it with DropMine)
    Hold { to: usize, recipient: bool },
    DropMine(usize),
    /// upgrades a weak reference or recipient
    Upgrade { to: usize, recipient: bool },
    Attach { to: usize, base: u64, gaps: Vec<u64>, forever: bool },
    Unstash { fwd: bool },
    Reg { name: u8, to: usize },
    Lookup { name: u8, other: bool },
    Unreg { name: u8 },
    Rx { op: RegOp, name: u8, to: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TaskSpec {
    pub thread: bool,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub actors: Vec<ActorSpec>,
    pub tasks: Vec<TaskSpec>,
    /// how long after the clients the world is watched (ms)
    pub horizon: u64,
    /// which property's world this one is (C33)
    #[serde(default)]
    pub base: u8,
}

// ---- world ---------------------------------------------------------------------------------------

pub struct World {
    pub refs: Vec<Option<ActorRef<Act>>>,
    pub weak: Vec<Option<WeakActorRef<Act>>>,
    pub ids: Vec<(ActorID, usize)>,
    prepared: BTreeMap<usize, PreparedActor<Act>>,
    specs: Vec<ActorSpec>,
    mine: BTreeMap<(i64, usize), Vec<Held>>,
    next_uid: i64,
    streams: Vec<tokio::task::JoinHandle<()>>,
}
enum Held {
    Ref(#[allow(dead_code)] ActorRef<Act>),
    Rcp(#[allow(dead_code)] Recipient<Msg>),
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    simrt::sim::no_preempt(|| {
        let mut g: MutexGuard<Option<World>> = WORLD.lock().unwrap_or_else(|e| e.into_inner());
        f(g.as_mut().expect("world"))
    })
}
fn uid() -> i64 {
    world(|w| {
        w.next_uid += 1;
        w.next_uid
    })
}
fn idx_of(id: ActorID) -> i64 {
    world(|w| w.ids.iter().find(|x| x.0 == id).map(|x| x.1 as i64).unwrap_or(-1))
}
pub fn reason_str(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => format!("panicked({})", err_str(e)),
        ActorStopReason::LinkDied { id, reason } => format!("link({},{})", idx_of(*id), reason_str(reason)),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}
pub fn err_str(e: &PanicError) -> String {
    if let Some(s) = e.with_str(|s| s.to_string()) {
        return s;
    }
    if let Some(s) = e.with_downcast_ref(|h: &HErr| format!("err:{}", h.0)) {
        return s;
    }
    if let Some(s) = e.with_downcast_ref(|h: &SendError<FMsg, SendError<Msg, HErr>>| format!("fwderr:{}", send_code(h).0)) {
        return s;
    }
    if let Some(s) = e.with_downcast_ref(|h: &SendError<Msg, HErr>| format!("fwderr:{}", send_code(h).0)) {
        return s;
    }
    "unknown".into()
}

// ---- messages ------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct HErr(pub u64);

#[derive(Debug)]
pub struct Msg {
    pub spec: MsgSpec,
    pub from: i64,
}
impl Drop for Msg {
    fn drop(&mut self) {
        log("mdrop", self.from, self.spec.id as i64, 0, 0, "");
    }
}
pub struct DMsg(pub Msg);
#[derive(Debug)]
pub struct FMsg(pub Msg, pub usize, pub FwdHow);
#[derive(Debug)]
pub struct F2Msg(pub Msg, pub usize, pub FwdHow);

/// Only registered under names to provoke type errors.
pub struct Other;
impl Actor for Other {
    type Error = HErr;
}

pub struct Act {
    idx: usize,
    spec: ActorSpec,
    handled: u64,
    via_on_message: bool,
    stash: VecDeque<(u64, ReplySender<Result<u64, HErr>>)>,
    calls: u64,
    /// signals taken out of the mailbox ahead of time
    inbox: VecDeque<Signal<Act>>,
    /// messages held back by `on_message`
    held: Vec<(BoxMessage<Act>, Option<BoxReplySender>)>,
    seen: u64,
    flush: bool,
    ticked: usize,
    tick_at: Option<tokio::time::Instant>,
    end_at: Option<tokio::time::Instant>,
}
impl Drop for Act {
    fn drop(&mut self) {
        log("drop", self.idx as i64, 0, 0, 0, "");
    }
}

struct Span {
    w: i64,
    id: i64,
    k: &'static str,
    done: bool,
}
impl Span {
    fn open(k: &'static str, w: usize, id: i64, b: i64, s: String) -> Span {
        log(&format!("{k}+"), w as i64, id, 0, b, s);
        Span { w: w as i64, id, k, done: false }
    }
    fn close(&mut self, a: i64, b: i64) {
        self.done = true;
        log(&format!("{}-", self.k), self.w, self.id, a, b, "");
    }
}
impl Drop for Span {
    fn drop(&mut self) {
        if !self.done {
            if self.k == "h" {
                probe("handler dropped mid-way");
            }
            log(&format!("{}!", self.k), self.w, self.id, 0, 0, "");
        }
    }
}

fn who_actor(i: usize) -> i64 {
    1000 + i as i64
}

impl Actor for Act {
    type Error = HErr;

    async fn on_start(&mut self, actor_ref: ActorRef<Self>) -> Result<(), HErr> {
        let mut sp = Span::open("start", self.idx, 0, 0, String::new());
        drop(actor_ref);
        let ops = self.spec.start.clone();
        run_ops(who_actor(self.idx), ops).await;
        finish(&mut sp, self.spec.start_end, 900_000 + self.idx as u64, 0).map(|_| ())
    }

    async fn on_message(&mut self, msg: BoxMessage<Self>, actor_ref: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        self.via_on_message = true;
        let r = match self.spec.onmsg {
            OnMsg::Now => msg.handle_dyn(self, actor_ref, tx).await,
            OnMsg::Refuse(n) => {
                self.seen += 1;
                if self.seen % n == 0 {
                    log("refused", self.idx as i64, 0, tx.is_some() as i64, 0, "");
                    Ok(())
                } else {
                    msg.handle_dyn(self, actor_ref, tx).await
                }
            }
            OnMsg::Panic(n) => {
                self.seen += 1;
                if self.seen % n == 0 {
                    log("ompanic", self.idx as i64, 0, tx.is_some() as i64, 0, "");
                    panic!("boom:{}", 950_000 + self.idx)
                }
                msg.handle_dyn(self, actor_ref, tx).await
            }
            OnMsg::Batch(k) => {
                self.held.push((msg, tx));
                let mut r = Ok(());
                if self.held.len() >= k || self.flush {
                    self.flush = false;
                    while let Some((m, tx)) = self.held.pop() {
                        r = m.handle_dyn(self, actor_ref.clone(), tx).await;
                        if r.is_err() {
                            break;
                        }
                    }
                }
                r
            }
        };
        self.via_on_message = false;
        r
    }

    async fn next(&mut self, r: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        let Some(ns) = self.spec.next.clone() else { return rx.recv().await };
        self.calls += 1;
        let sp = Nx::open(self.idx, self.calls, rx.len(), rx.is_empty());
        for _ in 0..ns.slow {
            tokio::task::yield_now().await;
        }
        if ns.panics.contains(&self.calls) {
            sp.close(NX_PANIC, 0);
            panic!("boom:{}", 940_000 + self.idx)
        }
        if ns.close == Some(self.calls) {
            rx.close();
            log("closed", self.idx as i64, rx.is_closed() as i64, 0, 0, "");
        }
        let now = tokio::time::Instant::now();
        let after = |ms: u64| now + simrt::ms(ms);
        if self.end_at.is_none() {
            self.end_at = ns.end.map(|e| after(e.0));
        }
        if self.tick_at.is_none() {
            self.tick_at = match ns.ticks.get(self.ticked) {
                Some(ms) => Some(after(*ms)),
                None if !self.held.is_empty() => Some(after(5)),
                None => None,
            };
        }
        loop {
            let at = [self.tick_at, self.end_at].into_iter().flatten().min();
            let own = async {
                match at {
                    Some(at) => tokio::time::sleep_until(at).await,
                    None => std::future::pending().await,
                }
            };
            let signal = tokio::select! {
                biased;
                _ = own => None,
                s = take(rx, &mut self.inbox, ns.take) => Some(s),
            };
            match signal {
                Some(s) => {
                    let k = match &s {
                        Some(Signal::Message { .. }) => NX_MESSAGE,
                        Some(Signal::Stop) => NX_STOP,
                        Some(_) => NX_OTHER,
                        None => NX_CLOSED,
                    };
                    sp.close(k, 0);
                    return s;
                }
                None if self.end_at == at => {
                    let stop = ns.end.unwrap().1;
                    sp.close(if stop { NX_OWN_STOP } else { NX_OWN_END }, 0);
                    return stop.then_some(Signal::Stop);
                }
                None => {
                    self.tick_at = None;
                    self.ticked += 1;
                    self.flush = true;
                    // with nobody left the mailbox is about to end
                    let Some(actor_ref) = r.upgrade() else { continue };
                    let id = 800_000 + self.idx as u64 * 1000 + self.ticked as u64;
                    let spec = MsgSpec { id, kind: Kind::Plain, body: vec![], end: End::Ok };
                    let message = Box::new(Msg { spec, from: who_actor(self.idx) });
                    sp.close(NX_OWN, id as i64);
                    return Some(Signal::Message { message, actor_ref, reply: None, sent_within_actor: true });
                }
            }
        }
    }

    async fn on_panic(&mut self, _r: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, HErr> {
        self.via_on_message = false;
        let mut sp = Span::open("pan", self.idx, 0, self.handled as i64, err_str(&err));
        run_ops(who_actor(self.idx), self.spec.panic_body.clone()).await;
        let e = 910_000 + self.idx as u64;
        match self.spec.panic_hook {
            PanicHook::Default => {
                sp.close(0, 0);
                Ok(ControlFlow::Break(ActorStopReason::Panicked(err)))
            }
            PanicHook::Continue => {
                sp.close(0, 1);
                Ok(ControlFlow::Continue(()))
            }
            PanicHook::BreakNormal => {
                sp.close(0, 2);
                Ok(ControlFlow::Break(ActorStopReason::Normal))
            }
            PanicHook::BreakKilled => {
                sp.close(0, 3);
                Ok(ControlFlow::Break(ActorStopReason::Killed))
            }
            PanicHook::Err => {
                sp.close(1, e as i64);
                Err(HErr(e))
            }
            PanicHook::Panic => {
                sp.close(2, e as i64);
                panic!("boom:{e}")
            }
        }
    }

    async fn on_link_died(&mut self, r: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, HErr> {
        let mut sp = Span::open("lnk", self.idx, idx_of(id), 0, reason_str(&reason));
        run_ops(who_actor(self.idx), self.spec.link_body.clone()).await;
        let e = 920_000 + self.idx as u64;
        match self.spec.link_hook {
            LinkHook::Default => {
                // the trait's own default, through an actor that does not override it
                let res = default_link_died(id, reason).await;
                drop(r);
                sp.close(0, matches!(res, ControlFlow::Break(_)) as i64);
                Ok(res)
            }
            LinkHook::Continue => {
                sp.close(0, 0);
                Ok(ControlFlow::Continue(()))
            }
            LinkHook::BreakNormal => {
                sp.close(0, 2);
                Ok(ControlFlow::Break(ActorStopReason::Normal))
            }
            LinkHook::Err => {
                sp.close(1, e as i64);
                Err(HErr(e))
            }
            LinkHook::Panic => {
                sp.close(2, e as i64);
                panic!("boom:{e}")
            }
        }
    }

    async fn on_stop(&mut self, _r: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), HErr> {
        let mut sp = Span::open("stp", self.idx, 0, self.handled as i64, reason_str(&reason));
        let left: Vec<_> = self.stash.drain(..).collect();
        drop(left);
        run_ops(who_actor(self.idx), self.spec.stop_body.clone()).await;
        finish(&mut sp, self.spec.stop_end, 930_000 + self.idx as u64, 0).map(|_| ())
    }
}

pub const NX_MESSAGE: i64 = 0;
pub const NX_STOP: i64 = 1;
pub const NX_OTHER: i64 = 2;
pub const NX_CLOSED: i64 = 3;
pub const NX_OWN: i64 = 4;
pub const NX_OWN_STOP: i64 = 5;
pub const NX_OWN_END: i64 = 6;
pub const NX_PANIC: i64 = 7;
pub const NX_CUT: i64 = 8;

/// One call of an own `next`.
struct Nx(usize, u64, bool);
impl Nx {
    fn open(idx: usize, call: u64, len: usize, empty: bool) -> Nx {
        log("nx+", idx as i64, call as i64, len as i64, empty as i64, "");
        Nx(idx, call, false)
    }
    fn close(mut self, k: i64, id: i64) {
        self.2 = true;
        log("nx-", self.0 as i64, self.1 as i64, k, id, "");
    }
}
impl Drop for Nx {
    fn drop(&mut self) {
        if !self.2 {
            log("nx-", self.0 as i64, self.1 as i64, NX_CUT, 0, "");
        }
    }
}

async fn take(rx: &mut MailboxReceiver<Act>, inbox: &mut VecDeque<Signal<Act>>, how: Take) -> Option<Signal<Act>> {
    match how {
        Take::Recv => rx.recv().await,
        Take::Poll => std::future::poll_fn(|cx| rx.poll_recv(cx)).await,
        Take::TryFirst => match rx.try_recv() {
            Ok(s) => Some(s),
            Err(_) => rx.recv().await,
        },
        Take::Many(k) | Take::PollMany(k) => {
            if inbox.is_empty() {
                let mut buf = vec![];
                let n = match how {
                    Take::Many(_) => rx.recv_many(&mut buf, k).await,
                    _ => std::future::poll_fn(|cx| rx.poll_recv_many(cx, &mut buf, k)).await,
                };
                assert_eq!(n, buf.len());
                inbox.extend(buf);
            }
            inbox.pop_front()
        }
    }
}

/// The real default hook of the `Actor` trait, run on a bare actor.
async fn default_link_died(id: ActorID, reason: ActorStopReason) -> ControlFlow<ActorStopReason> {
    let prepared = PreparedActor::<Other>::new(mailbox::unbounded());
    let w = prepared.actor_ref().downgrade();
    let mut o = Other;
    o.on_link_died(w, id, reason).await.expect("default hook does not fail")
}

fn finish(sp: &mut Span, end: End, e: u64, val: i64) -> Result<u64, HErr> {
    match end {
        End::Ok => {
            sp.close(0, val);
            Ok(val as u64)
        }
        End::Err => {
            sp.close(1, e as i64);
            Err(HErr(e))
        }
        End::Panic => {
            sp.close(2, e as i64);
            probe("handler or hook panic");
            panic!("boom:{e}")
        }
    }
}

impl Act {
    fn value(&mut self, id: u64) -> i64 {
        self.handled += 1;
        (id * 1000 + self.handled % 1000) as i64
    }
    async fn handle_msg(&mut self, m: &Msg, ctx_stash: Option<ReplySender<Result<u64, HErr>>>) -> Result<u64, HErr> {
        let mut sp = Span::open("h", self.idx, m.spec.id as i64, self.via_on_message as i64, String::new());
        if let Some(s) = ctx_stash {
            self.stash.push_back((m.spec.id, s));
        }
        let v = self.value(m.spec.id);
        self.body(&m.spec.body).await;
        finish(&mut sp, m.spec.end, m.spec.id, v)
    }
    async fn body(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Unstash { .. } => {
                    if let Some((id, s)) = self.stash.pop_front() {
                        log("dreply", self.idx as i64, id as i64, 0, (id * 1000 + 7) as i64, "");
                        s.send(Ok(id * 1000 + 7));
                    }
                }
                _ => run_op(who_actor(self.idx), op.clone(), &mut Pend::default()).await,
            }
        }
    }
}

impl Message<Msg> for Act {
    type Reply = Result<u64, HErr>;
    async fn handle(&mut self, m: Msg, _ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.handle_msg(&m, None).await
    }
}

impl Message<DMsg> for Act {
    type Reply = DelegatedReply<Result<u64, HErr>>;
    async fn handle(&mut self, m: DMsg, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let m = m.0;
        let id = m.spec.id;
        let mut sp = Span::open("h", self.idx, id as i64, self.via_on_message as i64, String::new());
        let v = self.value(id);
        let Kind::Deleg(how) = m.spec.kind.clone() else { unreachable!() };
        self.body(&m.spec.body).await;
        let out = |end: End| -> Result<u64, HErr> {
            match end {
                End::Ok => Ok(v as u64),
                _ => Err(HErr(id)),
            }
        };
        match how {
            DelegHow::Now => {
                if m.spec.end == End::Panic {
                    sp.close(2, id as i64);
                    panic!("boom:{id}")
                }
                log("dreply", self.idx as i64, id as i64, (m.spec.end != End::Ok) as i64, if m.spec.end == End::Ok { v } else { id as i64 }, "");
                let d = ctx.reply(out(m.spec.end));
                sp.close(3, v);
                d
            }
            _ => {
                let (d, tx) = ctx.reply_sender();
                match tx {
                    None => log("dnone", self.idx as i64, id as i64, 0, 0, ""),
                    Some(tx) => match how {
                        DelegHow::Drop => {
                            log("ddrop", self.idx as i64, id as i64, 0, 0, "");
                            drop(tx);
                            0
                        }
                        DelegHow::Task(ms) => {
                            let end = m.spec.end;
                            let idx = self.idx as i64;
                            let res = out(end);
                            tokio::spawn(async move {
                                if ms > 0 {
                                    tokio::time::sleep(simrt::ms(ms)).await;
                                } else {
                                    tokio::task::yield_now().await;
                                }
                                if end == End::Panic {
                                    log("ddrop", idx, id as i64, 0, 0, "");
                                    drop(tx);
                                } else {
                                    log("dreply", idx, id as i64, res.is_err() as i64, *res.as_ref().unwrap_or(&id) as i64, "");
                                    tx.send(res);
                                }
                            });
                            0
                        }
                        DelegHow::Stash => {
                            self.stash.push_back((id, tx));
                            0
                        }
                        DelegHow::Now => unreachable!(),
                    },
                };
                sp.close(3, v);
                d
            }
        }
    }
}

impl Message<FMsg> for Act {
    type Reply = ForwardedReply<Msg, Result<u64, HErr>>;
    async fn handle(&mut self, m: FMsg, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let FMsg(m, to, how) = m;
        let id = m.spec.id;
        let mut sp = Span::open("h", self.idx, id as i64, self.via_on_message as i64, String::new());
        self.value(id);
        let inner = Msg { spec: MsgSpec { id: id + 500_000, kind: Kind::Plain, body: m.spec.body.clone(), end: m.spec.end }, from: who_actor(self.idx) };
        let target = world(|w| w.refs[to].clone()).unwrap_or_else(|| ctx.actor_ref());
        let u = uid();
        log("finv", self.idx as i64, id as i64, to as i64, u, format!("{how:?}"));
        let r = match how {
            FwdHow::Async => ctx.forward(&target, inner).await,
            FwdHow::Try => ctx.try_forward(&target, inner),
            FwdHow::Block => ctx.blocking_forward(&target, inner),
        };
        let s = format!("{r:?}");
        log("fret", self.idx as i64, id as i64, s.contains("Ok(") as i64, u, s);
        sp.close(4, 0);
        r
    }
}

impl Message<F2Msg> for Act {
    type Reply = ForwardedReply<FMsg, ForwardedReply<Msg, Result<u64, HErr>>>;
    async fn handle(&mut self, m: F2Msg, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let F2Msg(m, to, how) = m;
        let Kind::Fwd2(_, _, to2, how2) = m.spec.kind else { unreachable!() };
        let id = m.spec.id;
        let mut sp = Span::open("h", self.idx, id as i64, self.via_on_message as i64, String::new());
        self.value(id);
        let inner = Msg { spec: MsgSpec { id: id + 500_000, kind: Kind::Fwd(to2, how2), body: m.spec.body.clone(), end: m.spec.end }, from: who_actor(self.idx) };
        let inner = FMsg(inner, to2, how2);
        let target = world(|w| w.refs[to].clone()).unwrap_or_else(|| ctx.actor_ref());
        let u = uid();
        log("finv", self.idx as i64, id as i64, to as i64, u, format!("{how:?}"));
        let r = match how {
            FwdHow::Async => ctx.forward(&target, inner).await,
            FwdHow::Try => ctx.try_forward(&target, inner),
            FwdHow::Block => ctx.blocking_forward(&target, inner),
        };
        let s = format!("{r:?}");
        log("fret", self.idx as i64, id as i64, s.contains("Ok(") as i64, u, s);
        sp.close(4, 0);
        r
    }
}

pub struct Item(pub Msg);
impl Message<StreamMessage<Item, u64, u64>> for Act {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<Item, u64, u64>, _ctx: &mut Context<Self, ()>) {
        match m {
            StreamMessage::Started(b) => {
                let mut sp = Span::open("h", self.idx, b as i64, self.via_on_message as i64, "started".into());
                self.handled += 1;
                sp.close(0, 0);
            }
            StreamMessage::Finished(b) => {
                let mut sp = Span::open("h", self.idx, b as i64, self.via_on_message as i64, "finished".into());
                self.handled += 1;
                sp.close(0, 0);
            }
            StreamMessage::Next(Item(m)) => {
                let mut sp = Span::open("h", self.idx, m.spec.id as i64, self.via_on_message as i64, "item".into());
                self.handled += 1;
                self.body(&m.spec.body).await;
                let _ = finish(&mut sp, End::Ok, 0, 0);
            }
        }
    }
}

struct Src {
    who: i64,
    base: u64,
    gaps: VecDeque<u64>,
    forever: bool,
    n: u64,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl Stream for Src {
    type Item = Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Option<Item>> {
        loop {
            if let Some(s) = &mut self.sleep {
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.sleep = None;
            } else {
                match self.gaps.front().copied() {
                    None if self.forever => return Poll::Pending,
                    None => return Poll::Ready(None),
                    Some(0) => {}
                    Some(g) => {
                        self.gaps[0] = 0;
                        self.sleep = Some(Box::pin(tokio::time::sleep(simrt::ms(g))));
                        continue;
                    }
                }
            }
            if self.gaps.pop_front().is_some() {
                self.n += 1;
                let id = self.base + self.n;
                log("item", self.who, id as i64, 0, 0, "");
                return Poll::Ready(Some(Item(Msg { spec: MsgSpec { id, kind: Kind::Plain, body: vec![Op::Yield(1)], end: End::Ok }, from: self.who })));
            }
        }
    }
}
impl Drop for Src {
    fn drop(&mut self) {
        log("srcdrop", self.who, self.base as i64, 0, 0, "");
    }
}

// ---- executing operations ------------------------------------------------------------------------

/// result codes of `ret` events
pub const OK: i64 = 0;
pub const NOT_RUNNING: i64 = 1;
pub const STOPPED: i64 = 2;
pub const FULL: i64 = 3;
pub const HANDLER: i64 = 4;
pub const TIMEOUT_MSG: i64 = 5;
pub const TIMEOUT_NONE: i64 = 6;
pub const PANICKED: i64 = 7;
pub const NONE: i64 = 8;
/// the caller dropped the future
pub const CANCELLED: i64 = 10;

trait HasId {
    fn mid(&self) -> i64;
}
impl HasId for Msg {
    fn mid(&self) -> i64 {
        self.spec.id as i64
    }
}
impl HasId for DMsg {
    fn mid(&self) -> i64 {
        self.0.mid()
    }
}
impl HasId for FMsg {
    fn mid(&self) -> i64 {
        self.0.mid()
    }
}
impl HasId for F2Msg {
    fn mid(&self) -> i64 {
        self.0.mid()
    }
}
impl HasId for () {
    fn mid(&self) -> i64 {
        -1
    }
}
trait ErrVal {
    fn ev(&self) -> (i64, String);
}
impl ErrVal for HErr {
    fn ev(&self) -> (i64, String) {
        (self.0 as i64, String::new())
    }
}
impl<M: HasId, E: ErrVal> ErrVal for SendError<M, E> {
    fn ev(&self) -> (i64, String) {
        match self {
            SendError::HandlerError(e) => e.ev(),
            e => {
                let (c, v) = send_code(e);
                (v, format!("fwd:{c}"))
            }
        }
    }
}
impl ErrVal for kameo::error::Infallible {
    fn ev(&self) -> (i64, String) {
        (0, String::new())
    }
}
fn send_code<M: HasId, E: ErrVal>(e: &SendError<M, E>) -> (i64, i64) {
    match e {
        SendError::ActorNotRunning(m) => (NOT_RUNNING, m.mid()),
        SendError::ActorStopped => (STOPPED, 0),
        SendError::MailboxFull(m) => (FULL, m.mid()),
        SendError::HandlerError(e) => (HANDLER, e.ev().0),
        SendError::Timeout(Some(m)) => (TIMEOUT_MSG, m.mid()),
        SendError::Timeout(None) => (TIMEOUT_NONE, 0),
    }
}
type Out = (i64, i64, String);
fn out_ask<M: HasId, E: ErrVal>(r: Result<u64, SendError<M, E>>) -> Out {
    match r {
        Ok(v) => (OK, v as i64, String::new()),
        Err(e) => {
            let s = if let SendError::HandlerError(h) = &e { h.ev().1 } else { String::new() };
            let (c, v) = send_code(&e);
            (c, v, s)
        }
    }
}
fn out_tell<M: HasId, E: ErrVal>(r: Result<(), SendError<M, E>>) -> Out {
    match r {
        Ok(()) => (OK, 0, String::new()),
        Err(e) => {
            let (c, v) = send_code(&e);
            (c, v, String::new())
        }
    }
}

type PendFut = Pin<Box<dyn Future<Output = Out> + Send>>;
/// outstanding enqueued replies of one task
#[derive(Default)]
pub struct Pend {
    futs: Vec<(i64, i64, i64, PendFut)>,
    blocks: Vec<(i64, i64, i64, Box<dyn FnOnce() -> Out + Send>)>,
}

fn pick_ref(who: i64, to: usize) -> Option<ActorRef<Act>> {
    let _ = who;
    world(|w| w.refs[to].clone().or_else(|| w.weak[to].as_ref().and_then(|x| if who == who_actor(to) { x.upgrade() } else { None })))
}
fn pick_strong(to: usize) -> Option<ActorRef<Act>> {
    world(|w| w.refs[to].clone())
}

fn dur(o: Option<u64>) -> Option<Duration> {
    o.map(simrt::ms)
}

// the pending replies borrow the actor ref; keep it alive next to them
struct RefBox(Box<ActorRef<Act>>);
impl RefBox {
    fn get(&self) -> &'static ActorRef<Act> {
        unsafe { &*(&*self.0 as *const ActorRef<Act>) }
    }
}

async fn ask_with<M, R, E>(r: &ActorRef<Act>, m: M, how: How, mt: Option<u64>, rt: Option<u64>) -> Out
where
    Act: Message<M, Reply = R>,
    R: Reply<Ok = u64, Error = E>,
    E: ErrVal + ReplyError,
    M: HasId + Send + 'static,
{
    let (mt, rt) = (dur(mt), dur(rt));
    match how {
        How::Ask => match (mt, rt) {
            (None, None) => out_ask(r.ask(m).await),
            (None, Some(t)) => out_ask(r.ask(m).reply_timeout(t).send().await),
            (Some(t), None) => out_ask(r.ask(m).mailbox_timeout(t).await),
            (Some(a), Some(b)) => out_ask(r.ask(m).mailbox_timeout(a).reply_timeout(b).send().await),
        },
        How::TryAsk => match rt {
            None => out_ask(r.ask(m).try_send().await),
            Some(t) => out_ask(r.ask(m).reply_timeout(t).try_send().await),
        },
        _ => unreachable!(),
    }
}

fn pend_out<M, R, E>(p: PendingReply<'static, M, R>, keep: RefBox) -> PendFut
where
    R: Reply<Ok = u64, Error = E>,
    E: ErrVal + ReplyError,
    M: HasId + Send + 'static,
{
    Box::pin(async move {
        let o = out_ask(p.await);
        drop(keep);
        o
    })
}

async fn enq_with<M, R, E>(r: RefBox, m: M, how: How, mt: Option<u64>, rt: Option<u64>) -> Result<PendFut, Out>
where
    Act: Message<M, Reply = R>,
    R: Reply<Ok = u64, Error = E>,
    E: ErrVal + ReplyError,
    M: HasId + Send + 'static,
{
    let (mt, rt) = (dur(mt), dur(rt));
    let a = r.get();
    let res = match how {
        How::Enq => match (mt, rt) {
            (None, None) => a.ask(m).enqueue().await,
            (None, Some(t)) => a.ask(m).reply_timeout(t).enqueue().await,
            (Some(t), None) => a.ask(m).mailbox_timeout(t).enqueue().await,
            (Some(x), Some(t)) => a.ask(m).mailbox_timeout(x).reply_timeout(t).enqueue().await,
        },
        How::TryEnq => match rt {
            None => a.ask(m).try_enqueue(),
            Some(t) => a.ask(m).reply_timeout(t).try_enqueue(),
        },
        _ => unreachable!(),
    };
    match res {
        Ok(p) => Ok(pend_out(p, r)),
        Err(e) => Err(out_tell::<(), _>(Err(e))),
    }
}

fn block_pend<M, R, E>(p: BlockingPendingReply<'static, M, R>, keep: RefBox) -> Box<dyn FnOnce() -> Out + Send>
where
    R: Reply<Ok = u64, Error = E>,
    E: ErrVal + ReplyError,
    M: HasId + Send + 'static,
{
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let s = S((p, keep));
    Box::new(move || {
        let s = s;
        let S((p, keep)) = s;
        let o = out_ask(p.recv());
        drop(keep);
        o
    })
}

async fn tell_with<M>(r: &ActorRef<Act>, m: M, how: How, mt: Option<u64>) -> Out
where
    Act: Message<M>,
    M: HasId + Send + 'static,
{
    match how {
        How::Tell => match dur(mt) {
            None => out_tell(r.tell(m).await),
            Some(t) => out_tell(r.tell(m).mailbox_timeout(t).send().await),
        },
        How::TryTell => out_tell(r.tell(m).try_send()),
        _ => unreachable!(),
    }
}

enum AnyMsg {
    M(Msg),
    D(DMsg),
    F(FMsg),
    F2(F2Msg),
}
fn build(who: i64, m: MsgSpec) -> AnyMsg {
    match m.kind.clone() {
        Kind::Plain => AnyMsg::M(Msg { spec: m, from: who }),
        Kind::Deleg(_) => AnyMsg::D(DMsg(Msg { spec: m, from: who })),
        Kind::Fwd2(to, how, ..) => AnyMsg::F2(F2Msg(Msg { spec: m, from: who }, to, how)),
        Kind::Fwd(to, how) => AnyMsg::F(FMsg(Msg { spec: m, from: who }, to, how)),
    }
}

macro_rules! any {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            AnyMsg::M($x) => $e,
            AnyMsg::D($x) => $e,
            AnyMsg::F($x) => $e,
            AnyMsg::F2($x) => $e,
        }
    };
}

fn panic_text(e: Box<dyn Any + Send>) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into())
}

async fn cancel(cx: Option<u64>, f: impl Future<Output = Out>) -> Out {
    match cx {
        None => guard(f).await,
        Some(0) => {
            // polled once, then dropped
            let mut f = Box::pin(guard(f));
            match futures::poll!(f.as_mut()) {
                Poll::Ready(o) => o,
                Poll::Pending => {
                    drop(f);
                    probe("request dropped by its caller");
                    (CANCELLED, 0, String::new())
                }
            }
        }
        Some(ms) => match tokio::time::timeout(simrt::ms(ms), guard(f)).await {
            Ok(o) => o,
            Err(_) => {
                probe("request dropped by its caller");
                (CANCELLED, 0, String::new())
            }
        },
    }
}
async fn guard(f: impl Future<Output = Out>) -> Out {
    match AssertUnwindSafe(f).catch_unwind().await {
        Ok(o) => o,
        Err(e) => (PANICKED, 0, panic_text(e)),
    }
}
fn guard_sync(f: impl FnOnce() -> Out) -> Out {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(e) => (PANICKED, 0, panic_text(e)),
    }
}

fn fmt_opt(n: &str, o: Option<u64>) -> String {
    o.map(|v| format!(" {n}={v}")).unwrap_or_default()
}

pub fn run_ops(who: i64, ops: Vec<Op>) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    Box::pin(async move {
        let mut p = Pend::default();
        for op in ops {
            run_op(who, op, &mut p).await;
        }
        collect(who, &mut p).await;
    })
}

async fn collect(who: i64, p: &mut Pend) {
    for (u, a, b, f) in std::mem::take(&mut p.futs) {
        log("cinv", who, u, a, b, "");
        let (c, v, s) = guard(f).await;
        log("ret", who, u, c, v, s);
    }
}

pub fn run_op<'a>(who: i64, op: Op, p: &'a mut Pend) -> Pin<Box<dyn Future<Output = ()> + Send + 'a>> {
    Box::pin(run_op_inner(who, op, p))
}

async fn run_op_inner(who: i64, op: Op, p: &mut Pend) {
    match op {
        Op::ErrHook(second) => {
            log("sethook", 1 + second as i64, 0, 0, 0, "");
            kameo::error::set_actor_error_hook(if second { hook2 } else { hook1 });
            log("sethook", 1 + second as i64, 0, 1, 0, "");
        }
        Op::Sleep(ms) => tokio::time::sleep(simrt::ms(ms)).await,
        Op::Yield(n) => {
            for _ in 0..n {
                tokio::task::yield_now().await
            }
        }
        Op::Collect => collect(who, p).await,
        Op::Send { to, how, mt, rt, cx, recipient, m } => {
            let u = uid();
            let mid = m.id as i64;
            let Some(r) = pick_ref(who, to) else { return };
            let cur = if r.is_current() { " self" } else { "" };
            log("inv", who, u, mid, to as i64, format!("{how:?}{}{}{}{cur}{}", fmt_opt("mt", mt), fmt_opt("rt", rt), fmt_opt("cx", cx), if recipient { " rcp" } else { "" }));
            let msg = build(who, m);
            match how {
                How::Tell | How::TryTell if recipient && matches!(msg, AnyMsg::M(_)) => {
                    let AnyMsg::M(x) = msg else { unreachable!() };
                    let rc = r.recipient::<Msg>();
                    let (c, v, s) = cancel(cx, async {
                        match (how, dur(mt)) {
                            (How::TryTell, _) => out_tell(rc.tell(x).try_send()),
                            (_, None) => out_tell(rc.tell(x).await),
                            (_, Some(t)) => out_tell(rc.tell(x).mailbox_timeout(t).send().await),
                        }
                    })
                    .await;
                    drop(rc);
                    log("ret", who, u, c, v, s);
                }
                How::Tell | How::TryTell => {
                    let (c, v, s) = cancel(cx, async { any!(msg, x => tell_with(&r, x, how, mt).await) }).await;
                    log("ret", who, u, c, v, s);
                }
                How::Ask | How::TryAsk => {
                    let (c, v, s) = cancel(cx, async { any!(msg, x => ask_with(&r, x, how, mt, rt).await) }).await;
                    log("ret", who, u, c, v, s);
                }
                How::Enq | How::TryEnq => {
                    let rb = RefBox(Box::new(r));
                    let res = AssertUnwindSafe(async { any!(msg, x => enq_with(rb, x, how, mt, rt).await) }).catch_unwind().await;
                    match res {
                        Ok(Ok(f)) => {
                            log("enq", who, u, OK, 0, "");
                            p.futs.push((u, mid, to as i64, f));
                        }
                        Ok(Err((c, v, s))) => {
                            log("ret", who, u, c, v, s);
                        }
                        Err(e) => {
                            log("ret", who, u, PANICKED, 0, panic_text(e));
                        }
                    }
                }
                _ => unreachable!("blocking send on a task"),
            }
        }
        Op::Stop { to, recipient } => {
            let u = uid();
            let Some(r) = pick_ref(who, to) else { return };
            log("inv", who, u, 0, to as i64, "stop");
            let (c, v, s) = guard(async {
                if recipient {
                    out_tell(r.recipient::<Msg>().stop_gracefully().await)
                } else {
                    out_tell(r.stop_gracefully().await)
                }
            })
            .await;
            log("ret", who, u, c, v, s);
        }
        Op::Kill { to, recipient } => {
            let u = uid();
            let Some(r) = pick_ref(who, to) else { return };
            log("inv", who, u, 0, to as i64, "kill");
            if recipient {
                r.recipient::<Msg>().kill()
            } else {
                r.kill()
            }
            log("ret", who, u, OK, 0, "");
        }
        Op::Link { a, b, .. } | Op::Unlink { a, b, .. } => {
            let un = matches!(op, Op::Unlink { .. });
            let u = uid();
            let (Some(x), Some(y)) = (pick_ref(who, a), pick_ref(who, b)) else { return };
            log("inv", who, u, b as i64, a as i64, if un { "unlink" } else { "link" });
            if un {
                x.unlink(&y).await
            } else {
                x.link(&y).await
            }
            log("ret", who, u, OK, 0, "");
        }
        Op::WaitStart { to, result } => {
            let u = uid();
            let Some(r) = pick_ref(who, to) else { return };
            log("inv", who, u, 0, to as i64, if result { "waitstart res" } else { "waitstart" });
            let (c, v, s) = guard(async {
                if result {
                    #[allow(deprecated)]
                    let res = if u % 3 == 0 { r.wait_startup_result().await } else { r.wait_for_startup_result().await };
                    match res {
                        Ok(()) => (OK, 0, String::new()),
                        Err(e) => (HANDLER, e.0 as i64, String::new()),
                    }
                } else {
                    if u % 3 == 0 {
                        #[allow(deprecated)]
                        r.wait_startup().await;
                    } else {
                        r.wait_for_startup().await;
                    }
                    (OK, 0, String::new())
                }
            })
            .await;
            log("ret", who, u, c, v, s);
        }
        Op::WaitStop { to, result } => {
            let u = uid();
            let Some(r) = pick_ref(who, to) else { return };
            log("inv", who, u, 0, to as i64, if result { "waitstop res" } else { "waitstop" });
            let (c, v, s) = guard(async {
                if result {
                    match r.wait_for_shutdown_result().await {
                        Ok(()) => (OK, 0, String::new()),
                        Err(e) => (HANDLER, e.0 as i64, String::new()),
                    }
                } else {
                    if u % 3 == 0 {
                        #[allow(deprecated)]
                        r.wait_for_stop().await;
                    } else {
                        r.wait_for_shutdown().await;
                    }
                    (OK, 0, String::new())
                }
            })
            .await;
            log("ret", who, u, c, v, s);
        }
        Op::Spawn(i) => {
            let p = world(|w| w.prepared.remove(&i).map(|p| (p, w.specs[i].clone())));
            if let Some((p, spec)) = p {
                spawn_prepared(i, p, spec);
            }
        }
        Op::Drop(i) => {
            log("dropref", who, 0, 0, i as i64, "");
            let r = world(|w| w.refs[i].take());
            drop(r);
        }
        Op::Hold { to, recipient } => {
            if let Some(r) = pick_strong(to) {
                log("hold", who, 0, 0, to as i64, "");
                let h = if recipient { Held::Rcp(r.recipient()) } else { Held::Ref(r) };
                world(|w| w.mine.entry((who, to)).or_default().push(h));
            }
        }
        Op::DropMine(to) => {
            let h = world(|w| w.mine.get_mut(&(who, to)).and_then(|v| v.pop()));
            if let Some(h) = h {
                log("dropmine", who, 0, 0, to as i64, "");
                drop(h);
            }
        }
        Op::Upgrade { to, recipient } => {
            let Some(w) = world(|w| w.weak[to].clone()) else { return };
            let u = uid();
            log("inv", who, u, 0, to as i64, if recipient { "upgrade rcp" } else { "upgrade" });
            let (c, v, s) = guard(async {
                let some = if recipient {
                    // a weak recipient made from a recipient made from the upgraded reference
                    match w.upgrade() {
                        Some(r) => {
                            let rc = r.recipient::<Msg>();
                            let wk: WeakRecipient<Msg> = rc.downgrade();
                            drop(rc);
                            let same = wk.id() == w.id();
                            let up = wk.upgrade();
                            if !same {
                                return (PANICKED, 1, "weak recipient id".into());
                            }
                            up.is_some() as i64 + 2
                        }
                        None => 0,
                    }
                } else {
                    w.upgrade().is_some() as i64
                };
                (OK, some, String::new())
            })
            .await;
            log("ret", who, u, c, v, s);
        }
        Op::Attach { to, base, gaps, forever } => {
            let Some(r) = pick_ref(who, to) else { return };
            let src = Src { who: 2000 + base as i64, base, gaps: gaps.into(), forever, n: 0, sleep: None };
            log("attach", who, base as i64, src.gaps.len() as i64, to as i64, if forever { "forever" } else { "" });
            let jh = r.attach_stream(src, base, base);
            drop(r);
            let h = tokio::spawn(async move {
                match jh.await {
                    Ok(Ok(s)) => {
                        log("srcend", 0, base as i64, OK, 0, "");
                        drop(s);
                    }
                    Ok(Err(e)) => {
                        let c = match &e {
                            SendError::ActorNotRunning(_) => NOT_RUNNING,
                            _ => NONE,
                        };
                        log("srcend", 0, base as i64, c, 0, format!("{e:?}"));
                    }
                    Err(_) => {
                        log("srcend", 0, base as i64, PANICKED, 0, "");
                    }
                }
            });
            world(|w| w.streams.push(h));
        }
        Op::Unstash { .. } => {}
        Op::Reg { name, to } => {
            let Some(r) = pick_ref(who, to) else { return };
            let u = uid();
            log("inv", who, u, name as i64, to as i64, "reg");
            let (c, v, s) = guard_sync(|| match r.register(format!("n{name}")) {
                Ok(()) => (OK, 0, String::new()),
                Err(e) => (HANDLER, 0, format!("{e:?}")),
            });
            log("ret", who, u, c, v, s);
        }
        Op::Lookup { name, other } => {
            let u = uid();
            log("inv", who, u, name as i64, -1, if other { "lookup other" } else { "lookup" });
            let n = format!("n{name}");
            let (c, v, s) = guard_sync(|| {
                if other {
                    match ActorRef::<Other>::lookup(n.as_str()) {
                        Ok(Some(_)) => (OK, -2, String::new()),
                        Ok(None) => (NONE, -1, String::new()),
                        Err(e) => (HANDLER, 0, format!("{e:?}")),
                    }
                } else {
                    match ActorRef::<Act>::lookup(n.as_str()) {
                        Ok(Some(r)) => (OK, idx_of(r.id()), String::new()),
                        Ok(None) => (NONE, -1, String::new()),
                        Err(e) => (HANDLER, 0, format!("{e:?}")),
                    }
                }
            });
            log("ret", who, u, c, v, s);
        }
        Op::Rx { op, name, to } => {
            let other = matches!(op, RegOp::RegOther | RegOp::InsertOther);
            let r = if other { None } else { pick_ref(who, to) };
            if op == RegOp::Insert && r.is_none() {
                return;
            }
            let u = uid();
            log("inv", who, u, name as i64, if other { -2 } else { to as i64 }, format!("rx {op:?}"));
            let n = format!("n{name}");
            let reg = &kameo::registry::ACTOR_REGISTRY;
            let (c, v, s) = guard_sync(|| {
                let v = match op {
                    RegOp::Insert => reg.lock().unwrap().insert(n, r.unwrap()) as i64,
                    RegOp::InsertOther => reg.lock().unwrap().insert(n, other_ref()) as i64,
                    RegOp::RegOther => match other_ref().register(n) {
                        Ok(()) => 0,
                        Err(e) => return (HANDLER, 0, format!("{e:?}")),
                    },
                    RegOp::Contains => reg.lock().unwrap().contains_name(n.as_str()) as i64,
                    RegOp::Len => {
                        let g = reg.lock().unwrap();
                        if g.is_empty() != (g.len() == 0) {
                            return (PANICKED, 0, "is_empty".into());
                        }
                        g.len() as i64
                    }
                    RegOp::Names => {
                        let g = reg.lock().unwrap();
                        let mut m = 0;
                        for k in g.names() {
                            m |= 1 << k[1..].parse::<u32>().unwrap_or(40);
                        }
                        m
                    }
                    RegOp::Clear => {
                        reg.lock().unwrap().clear();
                        0
                    }
                };
                (OK, v, String::new())
            });
            log("ret", who, u, c, v, s);
        }
        Op::Unreg { name } => {
            let u = uid();
            log("inv", who, u, name as i64, -1, "unreg");
            let n = format!("n{name}");
            let (c, v, s) = guard_sync(|| {
                let had = kameo::registry::ACTOR_REGISTRY.lock().unwrap().remove(n.as_str());
                (OK, had as i64, String::new())
            });
            log("ret", who, u, c, v, s);
        }
    }
}

/// One operation on a client thread; blocking variants outside the async context.
fn run_op_thread(h: &tokio::runtime::Handle, who: i64, op: Op, p: &mut Pend) {
    match op {
        Op::Send { to, how, mt: _, rt: _, cx: _, recipient, m } if how.blocking() => {
            let u = uid();
            let mid = m.id as i64;
            let Some(r) = pick_ref(who, to) else { return };
            log("inv", who, u, mid, to as i64, format!("{how:?}{}", if recipient { " rcp" } else { "" }));
            let msg = build(who, m);
            match how {
                How::BlockTell => {
                    let (c, v, s) = guard_sync(|| match msg {
                        AnyMsg::M(x) if recipient => out_tell(r.recipient::<Msg>().tell(x).blocking_send()),
                        msg => any!(msg, x => out_tell(r.tell(x).blocking_send())),
                    });
                    log("ret", who, u, c, v, s);
                }
                How::BlockAsk => {
                    let (c, v, s) = guard_sync(|| any!(msg, x => out_ask(r.ask(x).blocking_send())));
                    log("ret", who, u, c, v, s);
                }
                How::BlockEnq => {
                    let rb = RefBox(Box::new(r));
                    let a = rb.get();
                    let res = std::panic::catch_unwind(AssertUnwindSafe(|| -> Result<Box<dyn FnOnce() -> Out + Send>, Out> {
                        any!(msg, x => match a.ask(x).blocking_enqueue() {
                            Ok(b) => Ok(block_pend(b, rb)),
                            Err(e) => Err(out_tell::<(), _>(Err(e))),
                        })
                    }));
                    match res {
                        Ok(Ok(f)) => {
                            log("enq", who, u, OK, 0, "");
                            p.blocks.push((u, mid, to as i64, f));
                        }
                        Ok(Err((c, v, s))) => {
                            log("ret", who, u, c, v, s);
                        }
                        Err(e) => {
                            log("ret", who, u, PANICKED, 0, panic_text(e));
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        Op::Link { a, b, block: true } | Op::Unlink { a, b, block: true } => {
            let un = matches!(op, Op::Unlink { .. });
            let u = uid();
            let (Some(x), Some(y)) = (pick_ref(who, a), pick_ref(who, b)) else { return };
            log("inv", who, u, b as i64, a as i64, if un { "unlink" } else { "link" });
            if un {
                x.blocking_unlink(&y)
            } else {
                x.blocking_link(&y)
            }
            log("ret", who, u, OK, 0, "");
        }
        Op::Collect => collect_thread(h, who, p),
        op @ (Op::Reg { .. } | Op::Rx { .. } | Op::Lookup { .. } | Op::Unreg { .. } | Op::Kill { .. }) => {
            // synchronous: no runtime needed
            if let Some(()) = run_op(who, op, p).now_or_never() {}
        }
        op => h.block_on(run_op(who, op, p)),
    }
}
fn collect_thread(h: &tokio::runtime::Handle, who: i64, p: &mut Pend) {
    h.block_on(collect(who, p));
    for (u, a, b, f) in std::mem::take(&mut p.blocks) {
        log("cinv", who, u, a, b, "");
        let (c, v, s) = guard_sync(f);
        log("ret", who, u, c, v, s);
    }
}

fn new_act(i: usize, spec: &ActorSpec) -> Act {
    Act { idx: i, spec: spec.clone(), handled: 0, via_on_message: false, stash: VecDeque::new(), calls: 0, inbox: VecDeque::new(), held: vec![], seen: 0, flush: false, ticked: 0, tick_at: None, end_at: None }
}
fn mailbox_of(spec: &ActorSpec) -> (MailboxSender<Act>, MailboxReceiver<Act>) {
    match spec.cap {
        Some(n) => mailbox::bounded(n),
        None => mailbox::unbounded(),
    }
}

fn spawn_prepared(i: usize, p: PreparedActor<Act>, spec: ActorSpec) {
    log("spawn", i as i64, 0, 0, 0, format!("{:?}", spec.how));
    match spec.how {
        SpawnHow::Run => {
            let a = new_act(i, &spec);
            tokio::spawn(async move {
                let (a, reason) = p.run(a).await;
                log("runret", i as i64, 0, 0, 0, reason_str(&reason));
                drop(a);
            });
        }
        SpawnHow::Thread => {
            let jh = p.spawn_in_thread(new_act(i, &spec));
            drop(jh);
        }
        _ => {
            let jh = p.spawn(new_act(i, &spec));
            tokio::spawn(async move {
                match jh.await {
                    Ok((a, reason)) => {
                        log("runret", i as i64, 0, 0, 0, reason_str(&reason));
                        drop(a);
                    }
                    Err(_) => {
                        log("runpanic", i as i64, 0, 0, 0, "");
                    }
                }
            });
        }
    }
}

fn other_ref() -> ActorRef<Other> {
    PreparedActor::<Other>::new(mailbox::unbounded()).actor_ref().clone()
}

/// Runs a scenario on the current (simulated) runtime.
fn hook1(e: &PanicError) {
    log("errhook", 1, 0, 0, 0, err_str(e));
}
fn hook2(e: &PanicError) {
    log("errhook", 2, 0, 0, 0, err_str(e));
}

pub async fn run(sc: Scenario) {
    let n = sc.actors.len();
    *WORLD.lock().unwrap() = Some(World {
        refs: (0..n).map(|_| None).collect(),
        weak: (0..n).map(|_| None).collect(),
        ids: vec![],
        prepared: BTreeMap::new(),
        specs: sc.actors.clone(),
        mine: BTreeMap::new(),
        next_uid: 0,
        streams: vec![],
    });
    kameo::error::set_actor_error_hook(hook1);
    for (i, spec) in sc.actors.iter().enumerate() {
        let reg = |r: &ActorRef<Act>| {
            world(|w| {
                w.ids.push((r.id(), i));
                w.weak[i] = Some(r.downgrade());
                w.refs[i] = Some(r.clone());
            })
        };
        match (spec.how, spec.late) {
            (SpawnHow::Plain, false) => {
                log("spawn", i as i64, 0, 0, 0, "Plain");
                let r = match spec.cap {
                    // the default mailbox
                    Some(64) => kameo::actor::spawn(new_act(i, spec)),
                    _ => kameo::actor::spawn_with_mailbox(new_act(i, spec), mailbox_of(spec)),
                };
                reg(&r);
            }
            (SpawnHow::Thread, false) if i % 2 == 0 => {
                log("spawn", i as i64, 0, 0, 0, "Thread");
                let r = match spec.cap {
                    Some(64) => kameo::actor::spawn_in_thread(new_act(i, spec)),
                    _ => kameo::actor::spawn_in_thread_with_mailbox(new_act(i, spec), mailbox_of(spec)),
                };
                reg(&r);
            }
            (SpawnHow::Link(to), false) if to < i => {
                log("spawn", i as i64, 0, 0, 0, "Link");
                let other = pick_strong(to).unwrap();
                log("inv", -1, -(i as i64) - 1, to as i64, i as i64, "link");
                let r = match spec.cap {
                    Some(64) => kameo::actor::spawn_link(&other, new_act(i, spec)).await,
                    _ => kameo::actor::spawn_link_with_mailbox(&other, new_act(i, spec), mailbox_of(spec)).await,
                };
                reg(&r);
                log("ret", -1, -(i as i64) - 1, OK, 0, "");
            }
            _ => {
                let p = PreparedActor::new(mailbox_of(spec));
                reg(p.actor_ref());
                if spec.late {
                    world(|w| w.prepared.insert(i, p));
                } else {
                    spawn_prepared(i, p, spec.clone());
                }
            }
        }
    }
    let mut tasks = vec![];
    let h = tokio::runtime::Handle::current();
    for (t, spec) in sc.tasks.iter().enumerate() {
        let who = t as i64;
        let ops = spec.ops.clone();
        if spec.thread {
            let h = h.clone();
            let (tx, rx) = tokio::sync::oneshot::channel();
            std::thread::spawn(move || {
                let mut p = Pend::default();
                for op in ops {
                    run_op_thread(&h, who, op, &mut p);
                }
                collect_thread(&h, who, &mut p);
                log("tdone", who, 0, 0, 0, "");
                let _ = tx.send(());
            });
            tasks.push(
                async move {
                    let _ = rx.await;
                }
                .boxed(),
            );
        } else {
            let j = tokio::spawn(async move {
                run_ops(who, ops).await;
                log("tdone", who, 0, 0, 0, "");
            });
            tasks.push(
                async move {
                    let _ = j.await;
                }
                .boxed(),
            );
        }
    }
    let deadline = tokio::time::sleep(simrt::ms(60_000));
    tokio::select! {
        _ = futures::future::join_all(tasks) => { log("alldone", -1, 0, 0, 0, ""); }
        _ = deadline => { log("deadline", -1, 0, 0, 0, ""); }
    }
    tokio::time::sleep(simrt::ms(sc.horizon)).await;
    // final state, observed without holding anything alive
    for i in 0..n {
        let r = world(|w| w.refs[i].as_ref().map(|r| r.is_alive()));
        log("final", i as i64, 0, r.map(|b| b as i64).unwrap_or(-1), 0, "");
    }
    log("end", -1, 0, 0, 0, "");
}

#[allow(dead_code)]
type Unused = HashMap<u8, u8>;
