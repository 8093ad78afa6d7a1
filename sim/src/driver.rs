//! Runs plans in forked processes, collects verdicts, minimises and replays.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst},
    time::Instant,
};

use serde_json::{json, Value};

use crate::{
    gens,
    plan::*,
    rt::{self, Dec, Env, Region, MAXDEC, STAT},
    stats,
    world::{self, Out, COUNTER, NC},
};

pub fn shared<T>() -> &'static mut T { shared_slice::<T>(1).first_mut().unwrap() }
pub fn shared_slice<T>(n: usize) -> &'static mut [T] {
    let len = (std::mem::size_of::<T>() * n).max(1);
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    Bad(String, String),
    Harness(String),
}
pub struct World1 {
    pub verdict: Verdict,
    pub body: Vec<u8>,
    pub hash: u64,
    pub sched: u64,
    pub dec: Option<Vec<Dec>>,
}

/// The memory through which a child reports.
pub struct Lab {
    region: &'static mut Region,
    out: &'static mut Out,
    pub cpu_limit: u64,
}
impl Lab {
    pub fn new() -> Lab { Lab { region: shared(), out: shared(), cpu_limit: 40 } }

    /// one environment of a plan, in one new process
    fn world(&mut self, plan: &Plan, e: &Env, dec: Option<&Vec<Dec>>, acc: Option<&mut Acc>) -> World1 {
        self.region.env = e.clone();
        self.region.env.explicit_mode = dec.is_some() as u32;
        self.region.ndec_in = 0;
        if let Some(d) = dec {
            let n = d.len().min(MAXDEC);
            self.region.dec_in[..n].copy_from_slice(&d[..n]);
            self.region.ndec_in = n as u32;
        }
        self.region.ndec = 0;
        self.region.end_code = 0;
        self.region.hash = 0;
        self.region.stats = [0; 64];
        self.out.status = 0;
        self.out.len = 0;
        self.out.counters = [0; NC];
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            return World1 { verdict: Verdict::Harness("fork failed".into()), body: vec![], hash: 0, sched: 0, dec: None };
        }
        if pid == 0 {
            unsafe {
                rt::R = self.region;
                world::OUT = self.out;
                let lim = |r, v| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU, self.cpu_limit);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_DATA, 3 << 30);
                libc::alarm(self.cpu_limit as u32 * 5);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 1);
                if std::env::var_os("SIM_TALK").is_none() {
                    libc::dup2(null, 2);
                }
            }
            world::install_panic_hook();
            world::execute(plan)
        }
        let mut st = 0;
        unsafe {
            while libc::waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
        }
        let exited = libc::WIFEXITED(st).then(|| libc::WEXITSTATUS(st));
        let msg = || {
            let m = &self.region.end_msg;
            let n = m.iter().position(|&b| b == 0).unwrap_or(m.len());
            String::from_utf8_lossy(&m[..n]).into_owned()
        };
        let body = self.out.buf[..self.out.len as usize].to_vec();
        let verdict = match (exited, self.out.status) {
            (Some(0), 1) => Verdict::Ok,
            (Some(0), 2) => match serde_json::from_slice::<(String, String)>(&body) {
                Ok((c, _)) if c == "harness" => Verdict::Harness(String::from_utf8_lossy(&body).into_owned()),
                Ok((c, d)) => Verdict::Bad(c, d),
                Err(_) => Verdict::Bad("unknown".into(), String::from_utf8_lossy(&body).into_owned()),
            },
            (_, 3) => Verdict::Harness(String::from_utf8_lossy(&body).into_owned()),
            (Some(41), _) => Verdict::Bad("deadlock".into(), msg()),
            (Some(42), _) => Verdict::Bad("no-progress".into(), msg()),
            (Some(n), _) => Verdict::Bad("process-ended".into(), format!("the library ended the process with status {n}")),
            (None, _) => match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => {
                    Verdict::Bad("hang".into(), format!("no result within {} s of processor time", self.cpu_limit))
                }
                libc::SIGALRM => Verdict::Bad("hang".into(), "blocked outside the simulated world".into()),
                libc::SIGABRT => Verdict::Bad("abort".into(), "the process was aborted".into()),
                s => Verdict::Bad("crash".into(), format!("the process was killed by signal {s}")),
            },
        };
        if let Some(a) = acc {
            for (x, y) in a.stats.iter_mut().zip(&self.region.stats) {
                *x += y;
            }
            for (x, y) in a.counters.iter_mut().zip(&self.out.counters) {
                *x += y;
            }
            a.sim_ns += self.region.now.saturating_sub(e.clock0);
            a.worlds += 1;
        }
        let n = self.region.ndec as usize;
        World1 {
            verdict,
            body,
            hash: self.region.hash,
            sched: self.region.sched_hash,
            dec: (n < MAXDEC).then(|| self.region.dec[..n].to_vec()),
        }
    }
    /// All environments of a plan, and their relation.
    pub fn run(&mut self, plan: &Plan, mut acc: Option<&mut Acc>) -> Run {
        let a = self.world(plan, &plan.env, plan.decisions.as_ref(), acc.as_deref_mut());
        let mut run = Run { verdict: a.verdict, hash: a.hash, sched: a.sched, dec: a.dec, dec2: None, body: a.body };
        if let (Verdict::Ok, Some(e2)) = (&run.verdict, &plan.env2) {
            let b = self.world(plan, e2, plan.decisions2.as_ref(), acc);
            run.hash = run.hash.rotate_left(9) ^ b.hash;
            run.sched = run.sched.rotate_left(9) ^ b.sched;
            run.dec2 = b.dec;
            run.verdict = match b.verdict {
                Verdict::Ok => relate(&plan.relation, &run.body, &b.body),
                v => v,
            };
        }
        run
    }
}
pub struct Run {
    pub verdict: Verdict,
    pub hash: u64,
    pub sched: u64,
    pub dec: Option<Vec<Dec>>,
    pub dec2: Option<Vec<Dec>>,
    pub body: Vec<u8>,
}
fn relate(rel: &str, a: &[u8], b: &[u8]) -> Verdict {
    let p = |x: &[u8]| serde_json::from_slice::<BTreeMap<String, String>>(x);
    let (Ok(a), Ok(b)) = (p(a), p(b)) else { return Verdict::Harness("no transcript".into()) };
    if rel == "unrelated" {
        let decks = |m: &BTreeMap<String, String>| -> Vec<(String, Vec<u8>)> {
            m.iter()
                .filter(|(k, v)| k.starts_with("S:") && v.len() > 100)
                .map(|(k, v)| (k.clone(), v.split(' ').filter_map(|t| crate::refmodel::parse(t).ok()).collect()))
                .collect()
        };
        for (ka, da) in decks(&a) {
            for (kb, db) in decks(&b) {
                if let Some(d) = world::related(&da, &db) {
                    return Verdict::Bad(
                        "entropy-ignored".into(),
                        format!("with other entropy the decks at {ka} and {kb} {d}: {}", crate::refmodel::texts(&da)),
                    );
                }
            }
        }
        return Verdict::Ok;
    }
    let keep = |m: BTreeMap<String, String>| -> BTreeMap<String, String> {
        m.into_iter().filter(|(k, _)| rel == "same-all" || !k.starts_with("S:")).collect()
    };
    let (a, b) = (keep(a), keep(b));
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            return Verdict::Bad(
                "depends-on-environment".into(),
                format!("operation {k} gave {:?} in one environment and {:?} in another", a.get(k), b.get(k)),
            );
        }
    }
    Verdict::Ok
}

#[repr(C)]
pub struct Acc {
    pub stats: [u64; 64],
    pub counters: [u64; NC],
    pub sim_ns: u64,
    pub worlds: u64,
    pub runs: u64,
    pub reruns: u64,
    pub rerun_diff: u64,
    pub seg: stats::Tally,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec {
    hash: u64,
    sched: u64,
    flags: u32, // 1 done, 2 nontrivial, 4 bad
    pad: u32,
}
#[repr(C)]
pub struct Ctl {
    next: AtomicU64,
    first_bad: AtomicU64,
    harness: AtomicU32,
    hn: u32,
    hmsg: [u8; 4096],
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub runs: u64,
    pub offset: u64,
    pub workers: usize,
    pub wall: u64,
    pub profile: String,
    pub out: Option<String>,
    pub replay_dir: String,
}

const FAULT_STATS: [usize; 12] = [1, 2, 9, 12, 16, 17, 18, 19, 22, 24, 23, 27];
fn nontrivial(a: &Acc, before: &(u64, u64)) -> bool { fault_sum(a) != *before }
fn fault_sum(a: &Acc) -> (u64, u64) {
    let f = FAULT_STATS.iter().filter(|&&k| k != 23).map(|&k| a.stats[k]).sum();
    let c = [3usize, 4, 5, 6, 7, 17, 19, 22, 23, 24, 25, 26, 27, 29, 30, 31, 33, 35, 36].iter().map(|&k| a.counters[k]).sum();
    (f, c)
}

pub fn run(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let ctl: &'static mut Ctl = shared();
    ctl.first_bad.store(u64::MAX, SeqCst);
    let recs: &'static mut [Rec] = shared_slice(o.runs as usize);
    let accs: &'static mut [Acc] = shared_slice(o.workers);
    let hashes: &'static mut [u64] = shared_slice(if o.prop == "C09" { stats::MAXHASH * o.workers } else { 1 });
    let ctl: &'static Ctl = ctl;
    let mut pids = Vec::new();
    for wk in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(wk);
            let mut lab = Lab::new();
            let acc = &mut accs[wk];
            let hs = if o.prop == "C09" { &mut hashes[wk * stats::MAXHASH..(wk + 1) * stats::MAXHASH] } else { &mut hashes[..0] };
            loop {
                let i = ctl.next.fetch_add(1, SeqCst);
                if i >= o.runs || i > ctl.first_bad.load(SeqCst) || ctl.harness.load(SeqCst) > 0 || t0.elapsed().as_secs() >= o.wall {
                    break;
                }
                let plan = gens::plan(&o.prop, o.seed, o.offset + i, &o.profile);
                let before = fault_sum(acc);
                let r = lab.run(&plan, Some(acc));
                acc.runs += 1;
                let mut flags = 1;
                if nontrivial(acc, &before) {
                    flags |= 2;
                }
                match r.verdict {
                    Verdict::Ok => {
                        if o.prop == "C09" {
                            acc.seg.add(&r.body, hs);
                        }
                    }
                    Verdict::Bad(..) => {
                        flags |= 4;
                        ctl.first_bad.fetch_min(i, SeqCst);
                    }
                    Verdict::Harness(m) => {
                        if ctl.harness.fetch_add(1, SeqCst) == 0 {
                            let c = ctl as *const Ctl as *mut Ctl;
                            let b = format!("run {}: {m}", o.offset + i).into_bytes();
                            let n = b.len().min(4096);
                            unsafe {
                                (&mut (*c).hmsg)[..n].copy_from_slice(&b[..n]);
                                (*c).hn = n as u32;
                            }
                        }
                    }
                }
                recs[i as usize] = Rec { hash: r.hash, sched: r.sched, flags, pad: 0 };
                if flags & 4 == 0 && i % 97 == 5 {
                    // is the run a function of its plan?
                    acc.reruns += 1;
                    if lab.run(&plan, None).hash != r.hash {
                        acc.rerun_diff += 1;
                    }
                }
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if !libc::WIFEXITED(st) {
            eprintln!("sim: a worker died ({st})");
            return 2;
        }
    }
    if ctl.harness.load(SeqCst) > 0 {
        eprintln!("sim: harness error: {}", String::from_utf8_lossy(&ctl.hmsg[..ctl.hn as usize]));
        return 2;
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut st = [0u64; 64];
    let mut co = [0u64; NC];
    let (mut sim_ns, mut worlds, mut runs, mut reruns, mut diff) = (0u128, 0, 0, 0, 0);
    for a in accs.iter() {
        for k in 0..64 {
            st[k] += a.stats[k];
        }
        for k in 0..NC {
            co[k] += a.counters[k];
        }
        sim_ns += a.sim_ns as u128;
        worlds += a.worlds;
        runs += a.runs;
        reruns += a.reruns;
        diff += a.rerun_diff;
    }
    let mut hs = BTreeSet::new();
    let mut ss = BTreeSet::new();
    for r in recs.iter().filter(|r| r.flags & 1 > 0) {
        if r.flags & 2 > 0 {
            hs.insert(r.hash);
        }
        ss.insert(r.sched);
    }
    let mut viol = Value::Null;
    let bad = ctl.first_bad.load(SeqCst);
    let mut extra = Value::Null;
    if bad != u64::MAX {
        viol = report(o, o.offset + bad);
    } else if o.prop == "C09" {
        let mut t: Box<stats::Tally> = unsafe { Box::new(std::mem::zeroed()) };
        for a in accs.iter() {
            t.merge(&a.seg);
        }
        let dups = stats::duplicates(accs.iter().map(|a| a.seg.nhash).collect::<Vec<_>>().as_slice(), hashes);
        let (found, table) = t.judge(dups);
        extra = table;
        if let Some((c, d)) = found {
            viol = report_stat(o, runs, &c, &d);
        }
    }
    let named = |names: &[&str], v: &[u64]| -> Value {
        Value::Object(names.iter().zip(v).filter(|x| *x.1 > 0).map(|(n, v)| (n.to_string(), json!(v))).collect())
    };
    let res = json!({
        "property": o.prop, "seed": o.seed, "profile": o.profile, "runs": runs, "worlds": worlds,
        "runs_requested": o.runs, "search_seconds": search_s, "simulated_seconds": (sim_ns as f64) / 1e9,
        "distinct_nontrivial": hs.len(), "distinct_schedules": ss.len(),
        "world": named(&STAT, &st), "events": named(&COUNTER, &co),
        "determinism_reruns": reruns, "determinism_differences": diff,
        "statistics": extra, "violation": viol,
    });
    let text = serde_json::to_string_pretty(&res).unwrap();
    match &o.out {
        Some(f) => std::fs::write(f, text).unwrap(),
        None => println!("{text}"),
    }
    if viol.is_null() { 0 } else { 1 }
}

pub fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn save(o: &Opts, p: &Plan) -> String {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let f = format!("{}/{}-{}-{}-{}.json", o.replay_dir, p.prop, p.seed, p.run, p.profile);
    std::fs::write(&f, serde_json::to_string_pretty(p).unwrap()).unwrap();
    f
}

/// Minimise the violating run and write its replay file.
fn report(o: &Opts, run: u64) -> Value {
    pin(0);
    let t0 = Instant::now();
    let mut lab = Lab::new();
    let plan0 = gens::plan(&o.prop, o.seed, run, &o.profile);
    let r = lab.run(&plan0, None);
    let Verdict::Bad(class, detail) = r.verdict else {
        // the code under test escapes the simulation; still a violation that was seen
        let mut p = plan0;
        p.violation = Some(("unstable".into(), "violated once, not when run again".into()));
        let f = save(o, &p);
        return json!({"class": "unstable", "detail": "violated once, not when run again", "replay": f, "run": run});
    };
    let size0 = size(&plan0);
    if class == "hang" {
        lab.cpu_limit = 8;
    }
    let budget = if class == "hang" { 8 } else { 500 };
    let mut m = Mini { lab, class: class.clone(), tries: 0, budget, t0, best: plan0, detail, dec: (r.dec, r.dec2), hash: r.hash };
    m.minimise();
    let mut p = m.best.clone();
    p.violation = Some((class.clone(), m.detail.clone()));
    p.hash = Some(format!("{:016x}", m.hash));
    // the replay must reproduce the violation exactly
    let mut ok = 0;
    for _ in 0..2 {
        let r = m.lab.run(&p, None);
        if matches!(&r.verdict, Verdict::Bad(c, d) if *c == class && *d == m.detail) && r.hash == m.hash {
            ok += 1;
        }
    }
    let f = save(o, &p);
    json!({
        "class": class, "detail": m.detail, "replay": f, "run": run, "attempts": m.tries, "size_before": size0,
        "size_after": size(&p), "decisions": p.decisions.as_ref().map(|d| d.len()), "replays_identical": ok,
    })
}
fn size(p: &Plan) -> usize {
    serde_json::to_string(&(&p.setup, &p.threads, &p.tail)).unwrap().len()
}
fn report_stat(o: &Opts, runs: u64, class: &str, detail: &str) -> Value {
    let p = json!({
        "statistic": true, "prop": o.prop, "seed": o.seed, "offset": o.offset, "runs": runs,
        "profile": o.profile, "violation": [class, detail],
    });
    let _ = std::fs::create_dir_all(&o.replay_dir);
    // a shorter prefix of runs that shows it too
    let mut best = (runs, detail.to_string());
    let mut n = runs / 2;
    let t0 = Instant::now();
    while n >= 1 && t0.elapsed().as_secs() < 40 {
        match stat_runs(&o.prop, o.seed, o.offset, n, &o.profile, o.workers) {
            Some((c, d)) if c == class => {
                best = (n, d);
                n /= 2;
            }
            _ => break,
        }
    }
    let mut p = p;
    p["runs"] = json!(best.0);
    p["violation"] = json!([class, best.1]);
    let f = format!("{}/{}-{}-stat-{}.json", o.replay_dir, o.prop, o.seed, o.profile);
    std::fs::write(&f, serde_json::to_string_pretty(&p).unwrap()).unwrap();
    json!({"class": class, "detail": best.1, "replay": f, "runs": best.0})
}
/// Deal the decks of runs offset.. again and judge them.
pub fn stat_runs(prop: &str, seed: u64, offset: u64, n: u64, profile: &str, workers: usize) -> Option<(String, String)> {
    let accs: &'static mut [Acc] = shared_slice(workers);
    let hashes: &'static mut [u64] = shared_slice(stats::MAXHASH * workers);
    let mut pids = Vec::new();
    for wk in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(wk);
            let mut lab = Lab::new();
            let hs = &mut hashes[wk * stats::MAXHASH..(wk + 1) * stats::MAXHASH];
            let mut i = wk as u64;
            while i < n {
                let plan = gens::plan(prop, seed, offset + i, profile);
                let r = lab.run(&plan, None);
                if let Verdict::Ok = r.verdict {
                    accs[wk].seg.add(&r.body, hs);
                }
                i += workers as u64;
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }

    let mut t: Box<stats::Tally> = unsafe { Box::new(std::mem::zeroed()) };
    for a in accs.iter() {
        t.merge(&a.seg);
    }
    let dups = stats::duplicates(accs.iter().map(|a| a.seg.nhash).collect::<Vec<_>>().as_slice(), hashes);
    let r = t.judge(dups).0;
    unsafe {
        libc::munmap(hashes.as_mut_ptr() as *mut _, stats::MAXHASH * workers * 8);
        libc::munmap(accs.as_mut_ptr() as *mut _, std::mem::size_of_val(accs));
    }
    r
}

struct Mini {
    lab: Lab,
    class: String,
    tries: u32,
    budget: u32,
    t0: Instant,
    best: Plan,
    detail: String,
    dec: (Option<Vec<Dec>>, Option<Vec<Dec>>),
    hash: u64,
}
impl Mini {
    fn spent(&self) -> bool { self.tries >= self.budget || self.t0.elapsed().as_secs() > 60 }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.tries += 1;
        let r = self.lab.run(&p, None);
        match r.verdict {
            Verdict::Bad(c, d) if c == self.class => {
                self.best = p;
                self.detail = d;
                self.dec = (r.dec, r.dec2);
                self.hash = r.hash;
                true
            }
            _ => false,
        }
    }
    fn minimise(&mut self) {
        loop {
            let before = self.tries;
            let changed = self.threads() | self.ops() | self.env() | self.shrink_ops();
            if !changed || self.spent() || self.tries == before {
                break;
            }
        }
        // pin the schedule down as explicit decisions, then thin it out
        if let (Some(d), d2) = self.dec.clone() {
            let mut p = self.best.clone();
            p.decisions = Some(d);
            p.decisions2 = if p.env2.is_some() { d2 } else { None };
            self.budget += 150;
            if self.attempt(p) {
                self.thin();
            }
        }
    }
    fn threads(&mut self) -> bool {
        let mut any = false;
        let mut i = 0;
        while i < self.best.threads.len() {
            let mut p = self.best.clone();
            p.threads.remove(i);
            if self.attempt(p) {
                any = true;
            } else {
                i += 1;
            }
        }
        any
    }
    fn lists(p: &mut Plan) -> Vec<&mut Vec<Op>> {
        let mut v: Vec<&mut Vec<Op>> = vec![&mut p.tail, &mut p.setup];
        v.extend(p.threads.iter_mut());
        v
    }
    fn ops(&mut self) -> bool {
        let mut any = false;
        let n = self.best.threads.len() + 2;
        for l in 0..n {
            // halves, then single operations
            let mut chunk = (Self::lists(&mut self.best)[l].len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < Self::lists(&mut self.best)[l].len() {
                    let mut p = self.best.clone();
                    {
                        let mut ls = Self::lists(&mut p);
                        let end = (at + chunk).min(ls[l].len());
                        ls[l].drain(at..end);
                    }
                    if self.attempt(p) {
                        any = true;
                    } else {
                        at += chunk;
                    }
                    if self.spent() {
                        return any;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        any
    }
    fn shrink_ops(&mut self) -> bool {
        let mut any = false;
        let n = self.best.threads.len() + 2;
        for l in 0..n {
            let mut i = 0;
            while i < Self::lists(&mut self.best)[l].len() {
                let op = Self::lists(&mut self.best)[l][i].clone();
                let mut hit = false;
                for s in shrink(&op) {
                    if self.spent() {
                        return any;
                    }
                    let mut p = self.best.clone();
                    Self::lists(&mut p)[l][i] = s;
                    if self.attempt(p) {
                        hit = true;
                        any = true;
                        break;
                    }
                }
                if !hit {
                    i += 1;
                }
            }
        }
        any
    }
    fn env(&mut self) -> bool {
        let mut any = false;
        let edits: [fn(&mut Env); 10] = [
            |e| e.p_spurious = 0,
            |e| {
                e.jump_at = 0;
                e.jump_by = 0
            },
            |e| e.ent_eintr = 0,
            |e| e.ent_short = 0,
            |e| e.ent_enosys = 0,
            |e| e.ent_hard_after = 0,
            |e| {
                e.gap_plain = 0;
                e.p_sync = 0
            },
            |e| e.gap_plain = 0,
            |e| e.p_sync = 0,
            |e| e.clock_tick = 0,
        ];
        for f in edits {
            let mut p = self.best.clone();
            f(&mut p.env);
            if p.relation != "unrelated" {
                if let Some(e) = p.env2.as_mut() {
                    f(e);
                }
            }
            if p != self.best && self.attempt(p) {
                any = true;
            }
        }
        any
    }
    fn thin(&mut self) {
        for which in 0..2 {
            let get = |p: &Plan| -> Option<Vec<Dec>> {
                if which == 0 { p.decisions.clone() } else { p.decisions2.clone() }
            };
            let Some(d) = get(&self.best) else { continue };
            let mut chunk = (d.len() / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let mut d = get(&self.best).unwrap();
                    if at >= d.len() {
                        break;
                    }
                    let end = (at + chunk).min(d.len());
                    d.drain(at..end);
                    let mut p = self.best.clone();
                    if which == 0 {
                        p.decisions = Some(d);
                    } else {
                        p.decisions2 = Some(d);
                    }
                    if !self.attempt(p) {
                        at += chunk;
                    }
                    if self.spent() {
                        return;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
    }
}

/// Run a replay file again: 0 = reproduced exactly.
pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("sim: {file}: {e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&text).unwrap();
    if v["statistic"] == json!(true) {
        let f = stat_runs(
            v["prop"].as_str().unwrap(),
            v["seed"].as_u64().unwrap(),
            v["offset"].as_u64().unwrap(),
            v["runs"].as_u64().unwrap(),
            v["profile"].as_str().unwrap(),
            8,
        );
        println!("{}", serde_json::to_string(&f).unwrap());
        let same = f.as_ref().map(|(c, d)| json!([c, d])) == Some(v["violation"].clone());
        println!("{}", if same { "REPRODUCED" } else { "NOT REPRODUCED" });
        return !same as i32;
    }
    let p: Plan = serde_json::from_value(v).unwrap();
    pin(0);
    let mut lab = Lab::new();
    let r = lab.run(&p, None);
    let hash = format!("{:016x}", r.hash);
    match r.verdict {
        Verdict::Bad(c, d) => {
            println!("violation of {}: {c}: {d}\nevent hash {hash}", p.prop);
            let same = p.violation == Some((c, d)) && p.hash.as_ref().map_or(true, |h| *h == hash);
            println!("{}", if same { "REPRODUCED" } else { "NOT REPRODUCED (another violation)" });
            !same as i32
        }
        v => {
            println!("{v:?}\nNOT REPRODUCED");
            1
        }
    }
}

/// Run plans twice each and compare their event hashes.
pub fn audit(prop: &str, seed: u64, n: u64, profile: &str) -> i32 {
    let mut lab = Lab::new();
    let mut bad = 0;
    for i in 0..n {
        let p = gens::plan(prop, seed, i, profile);
        pin(0);
        let a = lab.run(&p, None);
        pin(1 + i as usize % 6);
        let b = lab.run(&p, None);
        if a.hash != b.hash || a.sched != b.sched {
            println!("run {i}: {:016x} {:016x}", a.hash, b.hash);
            bad += 1;
        }
        // and the recorded schedule, replayed explicitly, is the same run
        if let (Some(d), true) = (a.dec, p.env2.is_none()) {
            let mut q = p.clone();
            q.decisions = Some(d);
            let c = lab.run(&q, None);
            if c.hash != a.hash {
                println!("run {i}: explicit schedule differs: {:016x} {:016x}", a.hash, c.hash);
                bad += 1;
            }
        }
    }
    println!("{prop}: {n} plans run three times, {bad} differences");
    (bad > 0) as i32
}
