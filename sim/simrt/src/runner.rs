//! Runs simulated executions in forked children, searches over seeds, minimises and replays failures.
use crate::{hist, mix, Ev, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::pin::Pin;
use std::sync::Mutex;
use std::time::{Duration, Instant};
use tokio::sim::{self, Policy};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// stable class, used while minimising and by the known-findings file
    pub class: String,
    pub detail: String,
}
pub fn viol(class: &str, detail: impl Into<String>) -> Violation {
    Violation { class: class.into(), detail: detail.into() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimParams {
    pub seed: u64,
    /// "random" | "fifo:PM" | "prio:PM" | "lifo:PM" | "starve"
    pub policy: String,
    pub yield_pm: u32,
    pub stall_pm: u32,
    pub stall_max_ms: u32,
    pub preempt_pm: u32,
    pub step_cap: u64,
    /// milliseconds for each unit of time of the scenario
    #[serde(default = "one")]
    pub scale: u32,
}
fn one() -> u32 {
    1
}

impl SimParams {
    pub fn swarm(seed: u64, r: &mut Rng) -> Self {
        let policy = match r.below(10) {
            0..=3 => "random".to_string(),
            4..=5 => format!("fifo:{}", r.pick(&[0, 20, 100, 300])),
            6..=7 => format!("prio:{}", r.pick(&[5, 30, 150])),
            8 => format!("lifo:{}", r.pick(&[50, 200, 400])),
            _ => "starve".to_string(),
        };
        SimParams {
            seed,
            policy,
            yield_pm: *r.pick(&[0, 0, 15, 60, 200, 400]),
            stall_pm: 0,
            stall_max_ms: 0,
            preempt_pm: 0,
            step_cap: 400_000,
            scale: 1,
        }
    }
    fn config(&self, replay: Option<Vec<(u8, u32, u32)>>) -> sim::Config {
        let (p, a) = match self.policy.split_once(':') {
            Some((p, a)) => (p, a.parse().unwrap_or(100)),
            None => (self.policy.as_str(), 100),
        };
        sim::Config {
            seed: self.seed,
            policy: match p {
                "fifo" => Policy::Fifo(a),
                "prio" => Policy::Priority(a),
                "lifo" => Policy::Lifo(a),
                "starve" => Policy::Starve,
                _ => Policy::Random,
            },
            yield_pm: self.yield_pm,
            stall_pm: self.stall_pm,
            stall_max_ms: self.stall_max_ms.saturating_mul(self.scale.max(1)),
            preempt_pm: self.preempt_pm,
            step_cap: self.step_cap,
            replay,
        }
    }
}

pub type MainFut = Pin<Box<dyn Future<Output = ()>>>;

pub trait Check<S> {
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng) -> S;
    fn params(&self, _sc: &S, seed: u64, r: &mut Rng) -> SimParams {
        SimParams::swarm(seed, r)
    }
    /// The simulated world; runs on the simulated runtime.
    fn run(&self, sc: S) -> MainFut;
    fn judge(&self, sc: &S, h: &[Ev]) -> Vec<Violation>;
    fn nontrivial(&self, sc: &S, h: &[Ev]) -> bool;
    fn rule(&self) -> String;
    fn atoms(&self, sc: &S) -> usize;
    fn keep(&self, sc: &S, keep: &[bool]) -> S;
    fn simplify(&self, _sc: &S) -> Vec<S> {
        vec![]
    }
    /// quick runs
    fn runs(&self) -> u64 {
        20_000
    }
    fn real(&self) -> Vec<&'static str>;
    fn stubs(&self) -> Vec<&'static str>;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunResult {
    pub outcome: String,
    pub viols: Vec<Violation>,
    pub hist_hash: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub ihash: u64,
    pub switches: u64,
    pub yields: u64,
    pub stalls: u64,
    pub preempts: u64,
    pub decisions: u64,
    pub probes: Vec<(String, u64)>,
    pub nontrivial: bool,
    pub log: Option<Vec<(u8, u32, u32)>>,
    pub hist: Option<Vec<Ev>>,
}

impl RunResult {
    fn empty(outcome: &str) -> Self {
        RunResult {
            outcome: outcome.into(),
            viols: vec![],
            hist_hash: 0,
            events: 0,
            sim_ns: 0,
            steps: 0,
            ihash: 0,
            switches: 0,
            yields: 0,
            stalls: 0,
            preempts: 0,
            decisions: 0,
            probes: vec![],
            nontrivial: false,
            log: None,
            hist: None,
        }
    }
}

// ---- child side ----------------------------------------------------------------------------------

type Finish = Box<dyn FnOnce(&str) -> RunResult + Send>;
static FINISH: Mutex<Option<Finish>> = Mutex::new(None);
static OUT_FD: Mutex<i32> = Mutex::new(-1);

fn finish(outcome: &str) -> ! {
    sim::uninstall();
    let f = FINISH.lock().unwrap_or_else(|e| e.into_inner()).take();
    let r = match f {
        Some(f) => f(outcome),
        None => RunResult::empty("double finish"),
    };
    let fd = *OUT_FD.lock().unwrap_or_else(|e| e.into_inner());
    let bytes = serde_json::to_vec(&r).unwrap();
    let mut off = 0;
    while off < bytes.len() {
        let n = unsafe { libc::write(fd, bytes[off..].as_ptr() as *const _, bytes.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::_exit(0) }
}

fn child<S>(check: &'static dyn Check<S>, sc: S, p: SimParams, replay: Option<Vec<(u8, u32, u32)>>, want_hist: bool, fd: i32) -> !
where
    S: Clone + Send + 'static,
{
    *OUT_FD.lock().unwrap() = fd;
    crate::interpose::seal(p.seed);
    struct SendPtr<T: ?Sized>(*const T);
    unsafe impl<T: ?Sized> Send for SendPtr<T> {}
    let cp = SendPtr(check as *const dyn Check<S>);
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let cp = cp;
            let check: &'static dyn Check<S> = unsafe { &*cp.0 };
            std::panic::set_hook(Box::new(|info| {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "<any>".into()
                };
                if std::env::var_os("SIM_PANICS").is_some() {
                    eprintln!("panic at {loc}: {msg}");
                }
                hist::log("panic", -1, 0, 0, 0, format!("{loc} {msg}"));
            }));
            let sc2 = sc.clone();
            {
                let cp = SendPtr(check as *const dyn Check<S>);
                *FINISH.lock().unwrap() = Some(Box::new(move |outcome: &str| {
                    let cp = cp;
                    let check: &dyn Check<S> = unsafe { &*cp.0 };
                    let h = hist::take();
                    let st = sim::stats();
                    let mut r = RunResult::empty(outcome);
                    r.sim_ns = sim::now_ns();
                    r.steps = st.steps;
                    r.ihash = st.hash;
                    r.switches = st.switches;
                    r.yields = st.yields;
                    r.stalls = st.stalls;
                    r.preempts = st.preempts;
                    r.decisions = st.decisions;
                    r.probes = hist::probes();
                    r.events = h.len() as u64;
                    r.hist_hash = hist::hash(&h);
                    if outcome == "ok" {
                        r.viols = check.judge(&sc2, &h);
                    } else if let Some(why) = outcome.strip_prefix("abort:") {
                        r.viols = vec![viol(&format!("{}/no-progress", check.id()), why)];
                    }
                    r.nontrivial = check.nontrivial(&sc2, &h);
                    if !r.viols.is_empty() || want_hist {
                        r.log = Some(sim::decision_log());
                        r.hist = Some(h);
                    }
                    r
                }));
            }
            sim::set_abort_hook(|why| finish(&format!("abort:{why}")));
            crate::set_scale(p.scale);
            sim::install(p.config(replay));
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let rt = tokio::runtime::Builder::new_current_thread()
                    .enable_time()
                    .start_paused(true)
                    .build()
                    .unwrap();
                rt.block_on(check.run(sc));
                std::mem::forget(rt);
            }));
            match res {
                Ok(()) => finish("ok"),
                Err(e) => {
                    let m = e
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| e.downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    finish(&format!("harness-panic:{m}"))
                }
            }
        })
        .unwrap();
    let _ = t.join();
    unsafe { libc::_exit(99) }
}

/// Executes one run in a forked child.
pub fn execute<S>(check: &'static dyn Check<S>, sc: &S, p: &SimParams, replay: Option<Vec<(u8, u32, u32)>>, want_hist: bool, wall: Duration) -> RunResult
where
    S: Clone + Send + 'static,
{
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child(check, sc.clone(), p.clone(), replay, want_hist, fds[1]);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let mut tmp = [0u8; 65536];
        let start = Instant::now();
        let mut timed_out = false;
        loop {
            let left = wall.saturating_sub(start.elapsed());
            if left.is_zero() {
                timed_out = true;
                break;
            }
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let rc = libc::poll(&mut pf, 1, left.as_millis().min(1_000_000) as i32 + 1);
            if rc > 0 {
                match f.read(&mut tmp) {
                    Ok(0) => break,
                    Ok(n) => buf.extend_from_slice(&tmp[..n]),
                    Err(_) => break,
                }
            }
        }
        if timed_out {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if timed_out {
            let mut r = RunResult::empty("wedged");
            r.viols = vec![viol(&format!("{}/wedged", check.id()), "one simulated step never returned")];
            return r;
        }
        match serde_json::from_slice::<RunResult>(&buf) {
            Ok(r) => r,
            Err(_) => {
                let mut r = RunResult::empty(&format!("crash status {status}"));
                r.viols = vec![viol(&format!("{}/process-abort", check.id()), format!("the simulated process died (wait status {status})"))];
                r
            }
        }
    }
}

// ---- search --------------------------------------------------------------------------------------

pub fn case<S>(check: &dyn Check<S>, master: u64, i: u64) -> (S, SimParams) {
    let mut h = 0xcbf29ce484222325u64;
    h = hist::fnv(check.id(), h);
    let seed = mix(mix(master, h), i);
    let mut r = Rng::new(seed);
    let sc = check.gen(&mut r);
    let p = check.params(&sc, seed, &mut r);
    (sc, p)
}

#[derive(Default, Serialize, Deserialize, Clone)]
struct Summary {
    runs: u64,
    nontrivial: u64,
    sim_ns: u64,
    steps: u64,
    events: u64,
    switches: u64,
    yields: u64,
    stalls: u64,
    preempts: u64,
    decisions: u64,
    probes: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    ihashes: Vec<u64>,
    harness_errors: Vec<String>,
    found: Vec<(u64, Violation)>,
}

#[derive(Clone, Debug, Deserialize)]
pub struct Known {
    pub property: String,
    /// violation class
    pub class: String,
    /// substring of the violation detail that identifies the specific finding
    pub detail_contains: String,
    pub what: String,
}

fn load_known(path: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known findings file");
    v["findings"].as_array().cloned().unwrap_or_default().into_iter().map(|x| serde_json::from_value(x).unwrap()).collect()
}

fn is_known<'a>(known: &'a [Known], id: &str, v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| k.property == id && k.class == v.class && v.detail.contains(&k.detail_contains))
}

pub struct Opts {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub wall_s: u64,
    pub jobs: u64,
    pub evidence: String,
    pub replay_dir: String,
    pub known: String,
    pub start: u64,
}

const RUN_WALL: Duration = Duration::from_secs(40);

fn worker<S>(check: &'static dyn Check<S>, o: &Opts, known: &[Known], w: u64, runs: u64, deadline: Instant, fd: i32) -> !
where
    S: Clone + Send + Serialize + 'static,
{
    let mut sum = Summary::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut is: HashSet<u64> = HashSet::new();
    let mut i = o.start + w;
    while i < o.start + runs && Instant::now() < deadline {
        let (sc, p) = case(check, o.seed, i);
        let mut r = execute(check, &sc, &p, None, false, RUN_WALL);
        if r.outcome == "wedged" {
            r = execute(check, &sc, &p, None, false, RUN_WALL * 3);
        }
        sum.runs += 1;
        sum.sim_ns += r.sim_ns;
        sum.steps += r.steps;
        sum.events += r.events;
        sum.switches += r.switches;
        sum.yields += r.yields;
        sum.stalls += r.stalls;
        sum.preempts += r.preempts;
        sum.decisions += r.decisions;
        for (k, v) in &r.probes {
            *sum.probes.entry(k.clone()).or_default() += v;
        }
        *sum.policies.entry(p.policy.split(':').next().unwrap().to_string()).or_default() += 1;
        if r.outcome.starts_with("harness") {
            sum.harness_errors.push(format!("case {i}: {}", r.outcome));
            break;
        }
        is.insert(r.ihash);
        if r.nontrivial && hs.insert(mix(r.hist_hash, r.ihash)) {
            sum.nontrivial += 1;
        }
        let mut bad = None;
        for v in &r.viols {
            match is_known(known, check.id(), v) {
                Some(k) => *sum.known.entry(k.what.clone()).or_default() += 1,
                None => {
                    if bad.is_none() {
                        bad = Some(v.clone())
                    }
                }
            }
        }
        if let Some(v) = bad {
            sum.found.push((i, v));
            break;
        }
        i += o.jobs;
    }
    sum.hashes = hs.into_iter().collect();
    sum.ihashes = is.into_iter().collect();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(&serde_json::to_vec(&sum).unwrap());
    drop(f);
    unsafe { libc::_exit(0) }
}

fn search<S>(check: &'static dyn Check<S>, o: &Opts, known: &[Known], runs: u64) -> Summary
where
    S: Clone + Send + Serialize + 'static,
{
    let deadline = Instant::now() + Duration::from_secs(o.wall_s);
    let mut pipes = vec![];
    for w in 0..o.jobs {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(check, o, known, w, runs, deadline, fds[1]);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0], Vec::<u8>::new(), false));
        }
    }
    let mut early = false;
    loop {
        let mut pfs: Vec<libc::pollfd> = pipes.iter().filter(|p| !p.3).map(|p| libc::pollfd { fd: p.1, events: libc::POLLIN, revents: 0 }).collect();
        if pfs.is_empty() {
            break;
        }
        unsafe { libc::poll(pfs.as_mut_ptr(), pfs.len() as _, 1000) };
        for pf in pfs {
            if pf.revents == 0 {
                continue;
            }
            let p = pipes.iter_mut().find(|p| p.1 == pf.fd).unwrap();
            let mut tmp = [0u8; 65536];
            let n = unsafe { libc::read(p.1, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if n > 0 {
                p.2.extend_from_slice(&tmp[..n as usize]);
            } else {
                p.3 = true;
                unsafe {
                    libc::close(p.1);
                    let mut st = 0;
                    libc::waitpid(p.0, &mut st, 0);
                }
                if let Ok(s) = serde_json::from_slice::<Summary>(&p.2) {
                    if !s.found.is_empty() || !s.harness_errors.is_empty() {
                        early = true;
                    }
                }
            }
        }
        if early {
            // a violation is enough; do not wait for the others' remaining cases
            for p in pipes.iter_mut().filter(|p| !p.3) {
                unsafe {
                    libc::kill(p.0, libc::SIGKILL);
                    let mut st = 0;
                    libc::waitpid(p.0, &mut st, 0);
                    libc::close(p.1);
                }
                p.3 = true;
            }
        }
    }
    let mut tot = Summary::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut is: HashSet<u64> = HashSet::new();
    for (_, _, buf, _) in pipes {
        let Ok(s) = serde_json::from_slice::<Summary>(&buf) else {
            if !early {
                tot.harness_errors.push("a search worker died".into());
            }
            continue;
        };
        tot.runs += s.runs;
        tot.sim_ns += s.sim_ns;
        tot.steps += s.steps;
        tot.events += s.events;
        tot.switches += s.switches;
        tot.yields += s.yields;
        tot.stalls += s.stalls;
        tot.preempts += s.preempts;
        tot.decisions += s.decisions;
        for (k, v) in s.probes {
            *tot.probes.entry(k).or_default() += v;
        }
        for (k, v) in s.policies {
            *tot.policies.entry(k).or_default() += v;
        }
        for (k, v) in s.known {
            *tot.known.entry(k).or_default() += v;
        }
        hs.extend(s.hashes);
        is.extend(s.ihashes);
        tot.harness_errors.extend(s.harness_errors);
        tot.found.extend(s.found);
    }
    tot.nontrivial = hs.len() as u64;
    tot.ihashes = is.into_iter().collect();
    tot.found.sort_by_key(|x| x.0);
    tot
}

// ---- minimisation and replay ---------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(bound(serialize = "S: Serialize", deserialize = "S: DeserializeOwned"))]
pub struct Replay<S> {
    pub version: u32,
    pub property: String,
    pub seed: u64,
    pub case: u64,
    pub violation: Violation,
    pub scenario: S,
    pub params: SimParams,
    /// non-default schedule, fault and delay decisions: (kind, index, value)
    pub decisions: Vec<(u8, u32, u32)>,
    pub trace: Vec<String>,
}

fn hits<S: Clone + Send + 'static>(check: &'static dyn Check<S>, sc: &S, p: &SimParams, replay: Option<Vec<(u8, u32, u32)>>, class: &str, known: &[Known]) -> Option<RunResult> {
    let r = execute(check, sc, p, replay, true, RUN_WALL);
    if r.viols.iter().any(|v| v.class == class && is_known(known, check.id(), v).is_none()) {
        Some(r)
    } else {
        None
    }
}

fn minimise<S>(check: &'static dyn Check<S>, master: u64, i: u64, v: &Violation, known: &[Known], budget: Duration) -> Option<Replay<S>>
where
    S: Clone + Send + Serialize + 'static,
{
    let t0 = Instant::now();
    let (mut sc, mut p) = case(check, master, i);
    let class = v.class.clone();
    let mut best = hits(check, &sc, &p, None, &class, known)?;
    if best.log.is_none() {
        // died or wedged: the seed alone is the replay
        return Some(Replay { version: 1, property: check.id().into(), seed: master, case: i, violation: v.clone(), scenario: sc, params: p, decisions: vec![(255, 0, 0)], trace: vec![] });
    }
    let seeds = 12u64;
    let try_sc = |cand: &S, p: &SimParams| -> Option<(SimParams, RunResult)> {
        for k in 0..seeds {
            if t0.elapsed() > budget {
                return None;
            }
            let mut q = p.clone();
            if k > 0 {
                q.seed = mix(p.seed, k);
            }
            if let Some(r) = hits(check, cand, &q, None, &class, known) {
                if r.log.is_some() {
                    return Some((q, r));
                }
            }
        }
        None
    };
    // 0. an ordinary unit of time
    for scale in [1, 10, 100, 1000] {
        if scale < p.scale {
            if let Some((q, r)) = try_sc(&sc, &SimParams { scale, ..p.clone() }) {
                p = q;
                best = r;
                break;
            }
        }
    }
    // 1. fewer operations
    let mut chunk = (check.atoms(&sc) / 2).max(1);
    loop {
        let n = check.atoms(&sc);
        let mut off = 0;
        let mut any = false;
        while off < check.atoms(&sc) && t0.elapsed() < budget {
            let n = check.atoms(&sc);
            let keep: Vec<bool> = (0..n).map(|j| j < off || j >= off + chunk).collect();
            let cand = check.keep(&sc, &keep);
            match try_sc(&cand, &p) {
                Some((q, r)) => {
                    sc = cand;
                    p = q;
                    best = r;
                    any = true;
                }
                None => off += chunk,
            }
        }
        if t0.elapsed() > budget || n == 0 {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        } else if !any {
            break;
        }
    }
    // 2. simpler arguments
    let mut again = true;
    while again && t0.elapsed() < budget {
        again = false;
        for cand in check.simplify(&sc) {
            if t0.elapsed() > budget {
                break;
            }
            if let Some((q, r)) = try_sc(&cand, &p) {
                sc = cand;
                p = q;
                best = r;
                again = true;
                break;
            }
        }
    }
    // 3. fewer schedule and fault decisions
    let mut log = best.log.clone().unwrap();
    let budget2 = budget + budget / 2;
    match hits(check, &sc, &p, Some(log.clone()), &class, known) {
        None => return Some(Replay { version: 1, property: check.id().into(), seed: master, case: i, violation: best.viols[0].clone(), scenario: sc, params: p, decisions: vec![(255, 0, 0)], trace: best.hist.as_ref().map(|h| hist::dump(h).lines().map(String::from).collect()).unwrap_or_default() }),
        Some(r) => best = r,
    }
    let mut chunk = (log.len() / 2).max(1);
    while t0.elapsed() < budget2 && !log.is_empty() {
        let mut off = 0;
        let mut any = false;
        while off < log.len() && t0.elapsed() < budget2 {
            let cand: Vec<_> = log.iter().enumerate().filter(|(j, _)| *j < off || *j >= off + chunk).map(|x| *x.1).collect();
            match hits(check, &sc, &p, Some(cand.clone()), &class, known) {
                Some(r) if r.log.is_some() => {
                    log = r.log.clone().unwrap();
                    if log.len() > cand.len() {
                        log = cand;
                    }
                    best = r;
                    any = true;
                }
                _ => off += chunk,
            }
        }
        if chunk > 1 {
            chunk /= 2;
        } else if !any {
            break;
        }
    }
    let vv = best.viols.iter().find(|x| x.class == class).cloned().unwrap_or(v.clone());
    Some(Replay {
        version: 1,
        property: check.id().into(),
        seed: master,
        case: i,
        violation: vv,
        scenario: sc,
        params: p,
        decisions: log,
        trace: best.hist.as_ref().map(|h| hist::dump(h).lines().map(String::from).collect()).unwrap_or_default(),
    })
}

pub fn replay<S>(checks: &[&'static dyn Check<S>], path: &str, quiet: bool) -> i32
where
    S: Clone + Send + Serialize + DeserializeOwned + 'static,
{
    let r: Replay<S> = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay format");
    let check = *checks.iter().find(|c| c.id() == r.property).expect("property");
    let table = if r.decisions.first().map(|d| d.0) == Some(255) { None } else { Some(r.decisions.clone()) };
    let res = execute(check, &r.scenario, &r.params, table, true, RUN_WALL);
    if !quiet {
        if let Some(h) = &res.hist {
            print!("{}", hist::dump(h));
        }
        println!("outcome {} history hash {:016x}", res.outcome, res.hist_hash);
        for v in &res.viols {
            println!("  {}: {}", v.class, v.detail);
        }
    }
    if res.viols.iter().any(|v| v.class == r.violation.class) {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("not reproduced");
        0
    }
}

pub fn run_check<S>(check: &'static dyn Check<S>, o: &Opts) -> i32
where
    S: Clone + Send + Serialize + DeserializeOwned + 'static,
{
    let t0 = Instant::now();
    let known = load_known(&o.known);
    let runs = o.runs.unwrap_or(if o.tier == "thorough" { check.runs() * 40 } else { check.runs() });
    println!("{}: seed {} tier {} cases {}..{} on {} workers", check.id(), o.seed, o.tier, o.start, o.start + runs, o.jobs);
    let sum = search(check, o, &known, runs);
    let search_s = t0.elapsed().as_secs_f64();
    if !sum.harness_errors.is_empty() {
        for e in &sum.harness_errors {
            eprintln!("harness error: {e}");
        }
        return 2;
    }
    let mut code = 0;
    let mut viol_line = None;
    if let Some((i, v)) = sum.found.first() {
        println!("case {i}: {}: {}", v.class, v.detail);
        println!("minimising...");
        let budget = Duration::from_secs(if o.tier == "thorough" { 120 } else { 40 });
        std::fs::create_dir_all(&o.replay_dir).ok();
        let path = format!("{}/{}-{}-{}.json", o.replay_dir, check.id(), o.seed, i);
        match minimise(check, o.seed, *i, v, &known, budget) {
            Some(r) => {
                std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                println!("minimal scenario: {}", serde_json::to_string(&r.scenario).unwrap());
                println!("minimal decisions: {}", r.decisions.len());
                for l in &r.trace {
                    println!("  {l}");
                }
                println!("{}: {}", r.violation.class, r.violation.detail);
                let table = if r.decisions.first().map(|d| d.0) == Some(255) { None } else { Some(r.decisions.clone()) };
                let a = execute(check, &r.scenario, &r.params, table.clone(), true, RUN_WALL);
                let b = execute(check, &r.scenario, &r.params, table, true, RUN_WALL);
                println!("replayed twice: history hashes {:016x} {:016x}", a.hist_hash, b.hist_hash);
                viol_line = Some(format!("VIOLATION property={} replay={}", check.id(), path));
                code = 1;
            }
            None => {
                eprintln!("harness error: case {i} did not fail again: the run is not deterministic");
                code = 2;
            }
        }
    }
    // evidence
    let (sc, p) = case(check, o.seed, o.start);
    let r0 = execute(check, &sc, &p, None, true, RUN_WALL);
    let sample = json!({
        "case": o.start, "scenario": sc, "params": p, "outcome": r0.outcome, "events": r0.events,
        "history_head": r0.hist.as_ref().map(|h| hist::dump(&h[..h.len().min(25)]).lines().map(String::from).collect::<Vec<_>>()),
    });
    // determinism: a few cases again, freely and from their recorded decisions
    let (mut again, mut differ) = (0, 0);
    for k in 0..runs.min(12) {
        let k = o.start + k * (runs / runs.min(12));
        let (sc, p) = case(check, o.seed, k);
        let a = execute(check, &sc, &p, None, true, RUN_WALL);
        let b = execute(check, &sc, &p, None, true, RUN_WALL);
        let mut same = (a.hist_hash, a.ihash, a.steps) == (b.hist_hash, b.ihash, b.steps);
        if let Some(log) = a.log.clone() {
            same &= execute(check, &sc, &p, Some(log), true, RUN_WALL).hist_hash == a.hist_hash;
        }
        again += 1;
        if !same {
            differ += 1;
            eprintln!("case {k} was not repeated exactly");
        }
    }
    let ev = json!({
        "property": check.id(), "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.nontrivial,
            "rule": check.rule(),
            "samples": [sample],
            "seeds_run": sum.runs,
            "seeds_per_hour": (sum.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sum.sim_ns as f64 / 1e9,
            "scheduler_steps": sum.steps,
            "context_switches": sum.switches,
            "decisions_drawn": sum.decisions,
            "history_events": sum.events,
            "distinct_interleavings": sum.ihashes.len(),
            "interleaving_measure": "distinct hashes of the sequence of (task chosen, position in the run queue) over all scheduler steps of a run",
            "faults_and_rare_conditions": sum.probes,
            "forced_yields": sum.yields,
            "clock_stalls": sum.stalls,
            "thread_preemptions": sum.preempts,
            "scheduling_policies": sum.policies,
            "known_findings_hit": sum.known,
            "cases_repeated_for_determinism": again,
            "cases_repeated_differently": differ,
            "real_code": check.real(),
            "stubs": check.stubs(),
        },
        "assumptions": check.stubs().iter().map(|s| format!("simulated: {s}")).collect::<Vec<_>>(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 {1} else {0},
    });
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        std::fs::create_dir_all(d).ok();
    }
    std::fs::write(&o.evidence, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    for (k, n) in &sum.known {
        println!("KNOWN-FINDING: property={} {} ({} runs)", check.id(), k, n);
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} interleavings, {:.0} s simulated, {:.1} s wall, probes {:?}",
        check.id(), sum.runs, sum.nontrivial, sum.ihashes.len(), sum.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64(), sum.probes
    );
    if let Some(l) = viol_line {
        println!("{l}");
    }
    code
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

/// Command line of a simulation binary.
pub fn cli<S>(checks: Vec<&'static dyn Check<S>>) -> !
where
    S: Clone + Send + Serialize + DeserializeOwned + 'static,
{
    std::hint::black_box(crate::interpose::keep());
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let envs = |k: &str| std::env::var(k).ok();
    let seed = arg(&args, "--seed").or(envs("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let find = |id: &str| *checks.iter().find(|c| c.id() == id).unwrap_or_else(|| panic!("no check {id}"));
    let code = match cmd.as_str() {
        "list" => {
            for c in &checks {
                println!("{}", c.id());
            }
            0
        }
        "replay" => replay(&checks, &args[2], args.iter().any(|a| a == "-q")),
        "check" => {
            let id = args[2].clone();
            let tier = arg(&args, "--tier").or(envs("VERIF_TIER")).unwrap_or("quick".into());
            let o = Opts {
                evidence: arg(&args, "--evidence").unwrap_or(format!("evidence/{id}.json")),
                replay_dir: arg(&args, "--replays").unwrap_or("evidence/replays".into()),
                known: arg(&args, "--known").unwrap_or("known_findings.json".into()),
                runs: arg(&args, "--runs").and_then(|s| s.parse().ok()),
                wall_s: arg(&args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 200 }),
                jobs: arg(&args, "--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)),
                start: arg(&args, "--start").and_then(|s| s.parse().ok()).unwrap_or(0),
                id: id.clone(),
                tier,
                seed,
            };
            run_check(find(&id), &o)
        }
        "one" => {
            let c = find(&args[2]);
            let i = arg(&args, "--case").and_then(|s| s.parse().ok()).unwrap_or(0);
            let (sc, p) = case(c, seed, i);
            println!("{}", serde_json::to_string(&sc).unwrap());
            println!("{p:?}");
            let r = execute(c, &sc, &p, None, true, RUN_WALL);
            if let Some(h) = &r.hist {
                print!("{}", hist::dump(h));
            }
            println!("outcome {} steps {} events {} hash {:016x} nontrivial {} probes {:?}", r.outcome, r.steps, r.events, r.hist_hash, r.nontrivial, r.probes);
            for v in &r.viols {
                println!("  {}: {}", v.class, v.detail);
            }
            0
        }
        // every violation of a range of cases, one line each
        "scan" => {
            let c = find(&args[2]);
            let n: u64 = arg(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
            let step: u64 = arg(&args, "--step").and_then(|s| s.parse().ok()).unwrap_or(1);
            let off: u64 = arg(&args, "--start").and_then(|s| s.parse().ok()).unwrap_or(0);
            for i in 0..n {
                let k = off + i * step;
                let (sc, p) = case(c, seed, k);
                let r = execute(c, &sc, &p, None, false, RUN_WALL);
                if r.outcome != "ok" {
                    println!("{k} outcome {}", r.outcome);
                }
                for v in &r.viols {
                    println!("{k} {} {}", v.class, v.detail);
                }
            }
            0
        }
        // the same cases twice, one hash per line: diff the outputs of two invocations
        "hashes" => {
            let c = find(&args[2]);
            let n: u64 = arg(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(100);
            let step: u64 = arg(&args, "--step").and_then(|s| s.parse().ok()).unwrap_or(1);
            let off: u64 = arg(&args, "--start").and_then(|s| s.parse().ok()).unwrap_or(0);
            for i in 0..n {
                let k = off + i * step;
                let (sc, p) = case(c, seed, k);
                let r = execute(c, &sc, &p, None, true, RUN_WALL);
                // also: replaying the recorded decisions must give the same history
                let rr = execute(c, &sc, &p, r.log.clone(), true, RUN_WALL);
                if let (true, Some(a), Some(b)) = (rr.hist_hash != r.hist_hash, &r.hist, &rr.hist) {
                    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                        println!("first difference: {:?} / {:?}", a.get(i), b.get(i));
                    }
                }
                println!("{} {k} {:016x} {:016x} {} {}", c.id(), r.hist_hash, r.ihash, r.steps, if rr.hist_hash == r.hist_hash { "replay-same" } else { "REPLAY-DIFFERS" });
            }
            0
        }
        _ => {
            eprintln!("usage: {} list | check ID | replay FILE | one ID --case N | scan ID | hashes ID", args[0]);
            2
        }
    };
    std::process::exit(code)
}
