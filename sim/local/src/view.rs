//! A structured reading of one recorded history.
use crate::world::*;
use simrt::Ev;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct Span {
    pub k: String,
    pub actor: usize,
    pub id: i64,
    pub b: i64,
    pub s: String,
    pub n0: u64,
    pub t0: u64,
    pub n1: Option<u64>,
    pub t1: Option<u64>,
    /// 0 ok, 1 err, 2 panic, 3 delegated, 4 forwarded
    pub code: i64,
    pub val: i64,
    /// dropped before it finished
    pub cut: bool,
}
impl Span {
    pub fn done(&self) -> bool {
        self.n1.is_some() && !self.cut
    }
}

#[derive(Clone, Debug)]
pub struct Ret {
    pub n: u64,
    pub t: u64,
    pub code: i64,
    pub val: i64,
    pub s: String,
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub uid: i64,
    pub who: i64,
    /// how (`Ask`, `Tell`, .. or `stop`, `kill`, `link`, ..)
    pub how: String,
    pub tags: String,
    pub mid: i64,
    pub actor: i64,
    pub n: u64,
    pub t: u64,
    /// enqueue accepted
    pub enq: Option<(u64, u64)>,
    /// when the pending reply was first awaited
    pub cinv: Option<(u64, u64)>,
    pub ret: Option<Ret>,
}
impl OpRec {
    pub fn tag(&self, k: &str) -> Option<u64> {
        self.tags.split(' ').find_map(|x| x.strip_prefix(k).and_then(|x| x.strip_prefix('=')).and_then(|x| x.parse().ok()))
    }
    pub fn has(&self, k: &str) -> bool {
        self.tags.split(' ').any(|x| x == k)
    }
    pub fn is_send(&self) -> bool {
        self.how.starts_with(|c: char| c.is_ascii_uppercase())
    }
    pub fn is_ask(&self) -> bool {
        self.is_send() && !self.how.contains("Tell")
    }
    pub fn is_try(&self) -> bool {
        self.how.starts_with("Try")
    }
    pub fn code(&self) -> Option<i64> {
        self.ret.as_ref().map(|r| r.code)
    }
    /// the send was certainly accepted by the mailbox
    pub fn accepted(&self) -> bool {
        self.enq.is_some() || matches!(self.code(), Some(OK | HANDLER | STOPPED | TIMEOUT_NONE))
    }
    /// the send certainly failed
    pub fn rejected(&self) -> bool {
        self.enq.is_none() && matches!(self.code(), Some(NOT_RUNNING | FULL | TIMEOUT_MSG))
    }
    /// an event by which the send had certainly been accepted
    pub fn acc_n(&self) -> Option<u64> {
        if !self.accepted() {
            return None;
        }
        self.enq.map(|x| x.0).or(self.ret.as_ref().map(|r| r.n))
    }
    /// when the sending call itself returned
    pub fn send_ret_n(&self) -> Option<u64> {
        self.enq.map(|x| x.0).or(self.ret.as_ref().map(|r| r.n))
    }
}

#[derive(Default)]
pub struct View {
    pub spans: Vec<Span>,
    /// indices into spans, per actor, in start order
    pub by_actor: BTreeMap<usize, Vec<usize>>,
    /// message id -> handler spans
    pub handled: HashMap<i64, Vec<usize>>,
    pub ops: Vec<OpRec>,
    /// forwards, as sends of the forwarding actor
    pub fwds: Vec<OpRec>,
    pub mdrop: HashMap<i64, Vec<u64>>,
    pub drop: BTreeMap<usize, (u64, u64)>,
    pub spawn: BTreeMap<usize, (u64, String)>,
    pub finals: BTreeMap<usize, i64>,
    pub dreply: HashMap<i64, Vec<(u64, u64, i64, i64)>>,
    pub ddrop: HashMap<i64, u64>,
    pub deadline: bool,
    pub end: u64,
    pub runpanic: Vec<usize>,
}

impl View {
    pub fn new(h: &[Ev]) -> View {
        let mut v = View::default();
        let mut open: HashMap<(String, i64, i64), usize> = HashMap::new();
        let mut opix: HashMap<i64, usize> = HashMap::new();
        for e in h {
            let k = e.k.as_str();
            match k {
                "h+" | "start+" | "pan+" | "lnk+" | "stp+" => {
                    let base = k.trim_end_matches('+').to_string();
                    let i = v.spans.len();
                    v.spans.push(Span {
                        k: base.clone(),
                        actor: e.w as usize,
                        id: e.id,
                        b: e.b,
                        s: e.s.clone(),
                        n0: e.n,
                        t0: e.t,
                        n1: None,
                        t1: None,
                        code: -1,
                        val: 0,
                        cut: false,
                    });
                    v.by_actor.entry(e.w as usize).or_default().push(i);
                    if base == "h" {
                        v.handled.entry(e.id).or_default().push(i);
                    }
                    open.insert((base, e.w, e.id), i);
                }
                "h-" | "start-" | "pan-" | "lnk-" | "stp-" | "h!" | "start!" | "pan!" | "lnk!" | "stp!" => {
                    let base = k.trim_end_matches(['-', '!']).to_string();
                    if let Some(i) = open.remove(&(base, e.w, e.id)) {
                        let s = &mut v.spans[i];
                        s.n1 = Some(e.n);
                        s.t1 = Some(e.t);
                        s.code = e.a;
                        s.val = e.b;
                        s.cut = k.ends_with('!');
                    }
                }
                "inv" => {
                    let (how, tags) = e.s.split_once(' ').unwrap_or((&e.s, ""));
                    opix.insert(e.id, v.ops.len());
                    v.ops.push(OpRec {
                        uid: e.id,
                        who: e.w,
                        how: how.into(),
                        tags: tags.into(),
                        mid: e.a,
                        actor: e.b,
                        n: e.n,
                        t: e.t,
                        enq: None,
                        cinv: None,
                        ret: None,
                    });
                }
                "enq" => {
                    if let Some(&i) = opix.get(&e.id) {
                        v.ops[i].enq = Some((e.n, e.t));
                    }
                }
                "cinv" => {
                    if let Some(&i) = opix.get(&e.id) {
                        v.ops[i].cinv = Some((e.n, e.t));
                    }
                }
                "ret" => {
                    if let Some(&i) = opix.get(&e.id) {
                        v.ops[i].ret = Some(Ret { n: e.n, t: e.t, code: e.a, val: e.b, s: e.s.clone() });
                    }
                }
                "finv" => v.fwds.push(OpRec {
                    uid: e.b,
                    who: 1000 + e.w,
                    how: "Forward".into(),
                    tags: e.s.clone(),
                    mid: e.id + 500_000,
                    actor: e.a,
                    n: e.n,
                    t: e.t,
                    enq: None,
                    cinv: None,
                    ret: None,
                }),
                "fret" => {
                    if let Some(f) = v.fwds.iter_mut().find(|f| f.uid == e.b) {
                        f.ret = Some(Ret { n: e.n, t: e.t, code: if e.a == 1 { OK } else { NOT_RUNNING }, val: 0, s: e.s.clone() });
                    }
                }
                "mdrop" => v.mdrop.entry(e.id).or_default().push(e.n),
                "drop" => {
                    v.drop.insert(e.w as usize, (e.n, e.t));
                }
                "spawn" => {
                    v.spawn.insert(e.w as usize, (e.n, e.s.clone()));
                }
                "final" => {
                    v.finals.insert(e.w as usize, e.a);
                }
                "dreply" => v.dreply.entry(e.id).or_default().push((e.n, e.t, e.a, e.b)),
                "ddrop" => {
                    v.ddrop.insert(e.id, e.n);
                }
                "deadline" => v.deadline = true,
                "runpanic" => v.runpanic.push(e.w as usize),
                "end" => v.end = e.n,
                _ => {}
            }
        }
        v
    }
    pub fn of(&self, a: usize) -> Vec<&Span> {
        self.by_actor.get(&a).map(|v| v.iter().map(|i| &self.spans[*i]).collect()).unwrap_or_default()
    }
    pub fn hook(&self, a: usize, k: &str) -> Vec<&Span> {
        self.of(a).into_iter().filter(|s| s.k == k).collect()
    }
    pub fn stop(&self, a: usize) -> Option<&Span> {
        self.hook(a, "stp").first().copied()
    }
    pub fn started(&self, a: usize) -> Option<&Span> {
        self.hook(a, "start").first().copied()
    }
    /// on_start finished successfully
    pub fn start_ok(&self, a: usize) -> Option<&Span> {
        self.started(a).filter(|s| s.done() && s.code == 0)
    }
    pub fn hs(&self, mid: i64) -> Vec<&Span> {
        self.handled.get(&mid).map(|v| v.iter().map(|i| &self.spans[*i]).collect()).unwrap_or_default()
    }
    pub fn sends(&self) -> impl Iterator<Item = &OpRec> {
        self.ops.iter().filter(|o| o.is_send())
    }
    pub fn ops_of<'a>(&'a self, how: &'a str) -> impl Iterator<Item = &'a OpRec> + 'a {
        self.ops.iter().filter(move |o| o.how == how)
    }
    /// first event at which something may have begun to end this actor
    pub fn first_cause(&self, a: usize) -> Option<u64> {
        let mut m: Option<u64> = None;
        let mut up = |n: u64| m = Some(m.map_or(n, |x: u64| x.min(n)));
        for o in &self.ops {
            if (o.how == "stop" || o.how == "kill") && o.actor == a as i64 {
                up(o.n)
            }
        }
        for s in self.of(a) {
            match s.k.as_str() {
                "h" if s.n1.is_some() && (s.code == 1 || s.code == 2 || s.code == 3 || s.code == 4) => up(s.n1.unwrap()),
                "start" if s.n1.is_some() && s.code != 0 => up(s.n1.unwrap()),
                "lnk" | "pan" => up(s.n0),
                "stp" => up(s.n0),
                _ => {}
            }
        }
        m
    }
    /// the first time after which the actor is certainly unable to take messages (state dropped)
    pub fn gone(&self, a: usize) -> Option<u64> {
        self.drop.get(&a).map(|x| x.0)
    }
    pub fn first_op(&self, how: &str, a: usize) -> Option<&OpRec> {
        self.ops.iter().find(|o| o.how == how && o.actor == a as i64)
    }
    pub fn killed(&self, a: usize) -> bool {
        self.first_op("kill", a).is_some()
    }
    /// something of the actor failed (handler/tell error, panic, hook failure)
    pub fn failed(&self, a: usize) -> bool {
        self.of(a).iter().any(|s| s.k == "pan" || s.code == 2 || (s.code == 1 && s.k != "h"))
    }
    pub fn link_hit(&self, a: usize) -> bool {
        self.of(a).iter().any(|s| s.k == "lnk")
    }
}
