//! Simulated sessions of the two example programs.
#![allow(static_mut_refs)]
mod deals;
mod gens;
#[path = "../../sim/src/handgen.rs"]
#[allow(dead_code)]
mod handgen;
mod lines;
mod mined;
mod oracle;
mod plan;
#[path = "../../sim/src/refmodel.rs"]
#[allow(dead_code)]
mod refmodel;
#[path = "../../sim/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use std::{
    collections::BTreeSet,
    ffi::CString,
    sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst},
    time::Instant,
};

use oracle::{Notes, Seen};
use plan::*;
use serde_json::{json, Value};

pub static mut LADDER: Option<refmodel::Ladder> = None;

const MAXIN: usize = 4096;
const MAXWF: usize = 32;
const MAXEV: usize = 60000;
const INBUF: usize = 1 << 18;
const OUTBUF: usize = 1 << 22;

#[repr(C)]
#[derive(Clone, Copy)]
struct CIn {
    kind: u32,
    off: u32,
    len: u32,
    arg: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CEv {
    kind: u32,
    off: u32,
    len: u32,
    ins: u32,
}
#[repr(C)]
struct Shm {
    mode: u32,
    cols: u32,
    ent_seed: u64,
    hash_seed: u64,
    clock0: u64,
    clock_tick: u64,
    ent: [u32; 6],
    nin: u32,
    nwf: u32,
    ins: [CIn; MAXIN],
    wf: [[u32; 4]; MAXWF],
    inbuf: [u8; INBUF],
    nev: u32,
    nout: u32,
    in_pos: u32,
    in_used: u32,
    raw: u32,
    writes: u32,
    over: u32,
    stopped: u32,
    now: u64,
    raw_hash: u64,
    stats: [u32; 32],
    ev: [CEv; MAXEV],
    out: [u8; OUTBUF],
}
const STAT: [&str; 21] = [
    "reads", "read_interrupted", "read_failed", "end_of_input", "window_resized", "read_would_block", "writes",
    "write_short", "write_interrupted", "write_failed", "entropy_calls", "entropy_bytes", "entropy_interrupted",
    "entropy_short_read", "entropy_call_absent", "entropy_unavailable", "entropy_device_reads", "hash_seeds_drawn",
    "clock_readings", "signals_contained", "reads_split_by_the_program",
];
const FAULTS: [usize; 14] = [1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 14, 15, 16, 20];

fn shared_slice<T>(n: usize) -> &'static mut [T] {
    let len = (std::mem::size_of::<T>() * n).max(1);
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}

#[derive(Clone, Debug)]
enum Verdict {
    Ok,
    Bad(String, String),
    /// the plan is outside what the line models cover
    Skip,
    Harness(String),
}
struct Run {
    verdict: Verdict,
    hash: u64,
    shape: u64,
    sim_ns: u64,
}
struct Lab {
    fd: i32,
    shm: &'static mut Shm,
    dir: String,
    stats: [u64; 32],
    notes: Notes,
}
fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
}
impl Lab {
    fn new() -> Lab {
        unsafe {
            let fd = libc::memfd_create(c"session".as_ptr(), libc::MFD_CLOEXEC);
            assert!(fd >= 0);
            let n = std::mem::size_of::<Shm>();
            assert!(libc::ftruncate(fd, n as i64) == 0);
            let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            let me = std::env::current_exe().unwrap();
            Lab {
                fd,
                shm: &mut *(p as *mut Shm),
                dir: me.parent().unwrap().to_str().unwrap().into(),
                stats: [0; 32],
                notes: Notes::default(),
            }
        }
    }
    fn run(&mut self, p: &Plan) -> Run {
        self.notes.log.clear();
        self.notes.dealt = false;
        let mut r = self.session(p);
        if p.prop != "C19" {
            return r;
        }
        // the game's own rules are judged elsewhere; this is about its cards
        if let Verdict::Bad(..) = r.verdict {
            r.verdict = Verdict::Ok;
        }
        if p.env.ent_hard_after == 1 && self.notes.dealt {
            let (c, d) = ("dealt-without-entropy", "a hand was dealt although no entropy could be had");
            r.verdict = Verdict::Bad(c.into(), d.into());
        }
        if let (Some(t), Verdict::Ok) = (p.twin, &r.verdict) {
            let log = std::mem::take(&mut self.notes.log);
            let mut q = p.clone();
            q.env.ent_seed = t;
            let o = self.session(&q);
            let same = log.iter().zip(&self.notes.log).take_while(|(a, b)| a.first == b.first).count();
            if same > 0 {
                let d = format!("with other entropy and all else equal, {} was dealt again (and {} rounds after it)", refmodel::texts(&log[0].first), same - 1);
                r.verdict = Verdict::Bad("entropy-ignored".into(), d);
            }
            fnv(&mut r.hash, &o.hash.to_le_bytes());
            r.sim_ns += o.sim_ns;
            self.notes.log = log;
        }
        r
    }
    fn session(&mut self, p: &Plan) -> Run {
        let none = |v| Run { verdict: v, hash: 0, shape: 0, sim_ns: 0 };
        let Some(script) = lines::script(p) else { return none(Verdict::Skip) };
        let s = &mut *self.shm;
        s.mode = p.env.mode;
        s.cols = p.env.cols;
        s.ent_seed = p.env.ent_seed;
        s.hash_seed = p.env.hash_seed;
        s.clock0 = p.env.clock0;
        s.clock_tick = p.env.clock_tick;
        let e = &p.env;
        s.ent = [e.ent_eintr, e.ent_short, e.ent_enosys, e.ent_hard_after, e.ent_hard_errno, e.ent_nodev];
        let mut at = 0;
        if p.ins.len() > MAXIN || p.wf.len() > MAXWF {
            return none(Verdict::Skip);
        }
        for (i, x) in p.ins.iter().enumerate() {
            s.ins[i] = match x {
                In::Data(d) => {
                    if at + d.len() > INBUF || d.is_empty() {
                        return none(Verdict::Skip);
                    }
                    s.inbuf[at..at + d.len()].copy_from_slice(d);
                    at += d.len();
                    CIn { kind: 0, off: (at - d.len()) as u32, len: d.len() as u32, arg: 0 }
                }
                In::Eintr => CIn { kind: 1, off: 0, len: 0, arg: 0 },
                In::Eio => CIn { kind: 2, off: 0, len: 0, arg: 0 },
                In::Eof => CIn { kind: 3, off: 0, len: 0, arg: 0 },
                In::Winch(c) => CIn { kind: 4, off: 0, len: 0, arg: *c },
                In::Eagain => CIn { kind: 5, off: 0, len: 0, arg: 0 },
            };
        }
        s.nin = p.ins.len() as u32;
        for (i, w) in p.wf.iter().enumerate() {
            s.wf[i] = [w.nth, w.kind, w.arg, w.sticky as u32];
        }
        s.nwf = p.wf.len() as u32;
        (s.nev, s.nout, s.in_pos, s.in_used, s.raw, s.writes, s.over, s.stopped, s.now) = (0, 0, 0, 0, 0, 0, 0, 0, 0);
        s.stats = [0; 32];
        s.raw_hash = 0;
        let bin = CString::new(format!("{}/{}", self.dir, p.prog)).unwrap();
        let env = [
            CString::new(concat!("LD_PRELOAD=", env!("SHIM"))).unwrap(),
            CString::new("SESS_FD=100").unwrap(),
            CString::new(if p.env.mode == 1 { "TERM=dumb" } else { "TERM=xterm-256color" }).unwrap(),
            CString::new("PATH=/nonexistent").unwrap(),
            CString::new("HOME=/nonexistent").unwrap(),
        ];
        let mut envp: Vec<*const i8> = env.iter().map(|c| c.as_ptr()).collect();
        envp.push(std::ptr::null());
        let argv = [bin.as_ptr(), std::ptr::null()];
        let pid = unsafe { libc::vfork_like(self.fd, &bin, &argv, &envp) };
        if pid < 0 {
            return none(Verdict::Harness("fork failed".into()));
        }
        let mut st = 0;
        unsafe {
            while libc::waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
        }
        let exit = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 1000 + libc::WTERMSIG(st) };
        if exit == 98 || exit == 99 {
            return none(Verdict::Harness(format!("cannot start {bin:?}")));
        }
        let s = &*self.shm;
        // collect
        let mut seen = Seen { exit, ..Default::default() };
        let mut text: Vec<u8> = vec![];
        let mut seg: Vec<u8> = vec![]; // since the line editor let go of the terminal
        let mut after_raw = false;
        let mut hash = 0xcbf29ce484222325u64;
        let mut shape = hash;
        let settle = |seg: &mut Vec<u8>, after_raw: bool, text: &mut Vec<u8>| {
            let mut b = &seg[..];
            if after_raw {
                // what the editor writes on letting go, which a failing write can tear
                let last: &[u8] = b"\x1b[?2004l";
                b = if last.starts_with(b) { &[] } else { b.strip_prefix(last).unwrap_or(b) };
                b = b.strip_prefix(b"\n").unwrap_or(b);
            }
            text.extend_from_slice(b);
            seg.clear();
        };
        let mut out_failed = None;
        for e in &s.ev[..s.nev as usize] {
            let b = &s.out[e.off as usize..(e.off + e.len) as usize];
            fnv(&mut hash, &e.kind.to_le_bytes());
            fnv(&mut hash, &e.ins.to_le_bytes());
            fnv(&mut hash, b);
            if e.kind != 1 {
                fnv(&mut shape, &[e.kind as u8]);
            }
            match e.kind {
                0 => seg.extend_from_slice(b),
                1 => {
                    settle(&mut seg, after_raw, &mut text);
                    after_raw = true;
                }
                2 => seen.err += &String::from_utf8_lossy(b),
                3 | 4 => {
                    settle(&mut seg, after_raw, &mut text);
                    after_raw = p.env.mode == 2;
                    seen.reads.push((e.ins as u64, text.len()));
                }
                _ => {
                    if s.stats[9] > 0 && out_failed.is_none() && p.wf.iter().any(|w| w.hard()) {
                        // (an input fault may be taken for it: then less is judged)
                        settle(&mut seg, after_raw, &mut text);
                        after_raw = p.env.mode == 2;
                        out_failed = Some(text.len());
                    }
                }
            }
        }
        settle(&mut seg, after_raw, &mut text);
        seen.out_failed = out_failed;
        seen.ent_failed = s.stats[15] > 0;
        fnv(&mut hash, &(exit as u64).to_le_bytes());
        fnv(&mut hash, &s.raw_hash.to_le_bytes());
        for (a, b) in self.stats.iter_mut().zip(&s.stats) {
            *a += *b as u64;
        }
        let sim_ns = s.now;
        let verdict = match String::from_utf8(text) {
            Err(e) => match out_failed {
                Some(n) if e.utf8_error().valid_up_to() >= n || e.utf8_error().error_len().is_none() => {
                    Verdict::Ok
                }
                _ => Verdict::Bad("not-text".into(), "the output is not UTF-8".into()),
            },
            Ok(t) => {
                seen.text = t;
                match oracle::judge(p, &script, &seen, &mut self.notes) {
                    Ok(()) => Verdict::Ok,
                    Err((c, d)) => Verdict::Bad(c, d),
                }
            }
        };
        if std::env::var_os("SESS_SHOW").is_some() {
            println!("{}\n--- stderr\n{}\n--- exit {exit}\n--- lines {:?}", oracle::plain(&seen.text), seen.err, script.lines);
        }
        Run { verdict, hash, shape, sim_ns }
    }
}
mod libc {
    pub use ::libc::*;
    use std::ffi::CString;
    pub unsafe fn vfork_like(fd: i32, bin: &CString, argv: &[*const i8; 2], envp: &[*const i8]) -> i32 {
        let pid = fork();
        if pid != 0 {
            return pid;
        }
        let lim = |r, v| {
            let l = rlimit { rlim_cur: v, rlim_max: v };
            setrlimit(r, &l);
        };
        setsid();
        personality(0x0040000); // the address layout is fixed too
        lim(RLIMIT_CPU, 20);
        lim(RLIMIT_CORE, 0);
        lim(RLIMIT_DATA, 2 << 30);
        lim(RLIMIT_FSIZE, 0);
        alarm(120);
        let null = open(c"/dev/null".as_ptr(), O_RDWR);
        dup2(null, 0);
        dup2(null, 1);
        dup2(null, 2);
        dup2(fd, 100);
        if chdir(c"/".as_ptr()) != 0 {
            _exit(98);
        }
        execve(bin.as_ptr(), argv.as_ptr(), envp.as_ptr());
        _exit(98)
    }
}

fn pin(k: usize) {
    unsafe {
        let mut set: ::libc::cpu_set_t = std::mem::zeroed();
        if ::libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..::libc::CPU_SETSIZE as usize).filter(|&c| ::libc::CPU_ISSET(c, &set)).collect();
        let mut one: ::libc::cpu_set_t = std::mem::zeroed();
        ::libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        ::libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

struct Opts {
    prop: String,
    seed: u64,
    runs: u64,
    offset: u64,
    workers: usize,
    wall: u64,
    profile: String,
    out: Option<String>,
    replay_dir: String,
    /// only say what was found
    bare: bool,
}
struct Acc {
    stats: [u64; 32],
    notes: [u64; 18],
    runs: u64,
    skips: u64,
    sim_ns: u64,
    reruns: u64,
    diff: u64,
    modes: [u64; 3],
    deals: deals::Deals,
}
#[derive(Clone, Copy)]
struct Rec {
    hash: u64,
    shape: u64,
    flags: u64,
    /// how the game began
    start: u64,
}
struct Ctl {
    next: AtomicU64,
    first_bad: AtomicU64,
    harness: AtomicU32,
}
const NOTE: [&str; 18] = [
    "answers_checked", "rounds_checked", "refusals_checked", "games_lost", "cards_swapped", "quits", "ended_high_card",
    "ended_pair", "ended_two_pair", "ended_three_of_a_kind", "ended_straight", "ended_flush", "ended_full_house",
    "ended_four_of_a_kind", "ended_straight_flush", "ended_royal_flush", "sessions_without_entropy", "sessions_skipped",
];
fn note_values(n: &Notes, skips: u64) -> [u64; 18] {
    let mut v = [0; 18];
    v[..6].copy_from_slice(&[n.answers, n.rounds, n.refusals, n.game_over, n.swaps, n.quits]);
    v[6..16].copy_from_slice(&n.by_cat);
    v[16] = n.ent_failed;
    v[17] = skips;
    v
}

fn run(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let ctl: &'static Ctl = &shared_slice::<Ctl>(1)[0];
    ctl.first_bad.store(u64::MAX, SeqCst);
    let recs: &'static mut [Rec] = shared_slice(o.runs as usize);
    let accs: &'static mut [Acc] = shared_slice(o.workers);
    let mut pids = vec![];
    for wk in 0..o.workers {
        let pid = unsafe { ::libc::fork() };
        if pid == 0 {
            pin(wk);
            let mut lab = Lab::new();
            let acc = &mut accs[wk];
            loop {
                let i = ctl.next.fetch_add(1, SeqCst);
                if i >= o.runs || i > ctl.first_bad.load(SeqCst) || ctl.harness.load(SeqCst) > 0 || t0.elapsed().as_secs() >= o.wall {
                    break;
                }
                let plan = gens::plan(&o.prop, o.seed, o.offset + i, &o.profile);
                let before: u64 = FAULTS.iter().map(|&k| lab.stats[k]).sum();
                let r = lab.run(&plan);
                let after: u64 = FAULTS.iter().map(|&k| lab.stats[k]).sum();
                acc.runs += 1;
                acc.sim_ns += r.sim_ns;
                acc.modes[plan.env.mode as usize] += 1;
                let mut flags = 1 | (after > before) as u64 * 2;
                match r.verdict {
                    Verdict::Ok => {}
                    Verdict::Skip => {
                        acc.skips += 1;
                        flags = 0;
                    }
                    Verdict::Bad(..) => {
                        flags |= 4;
                        ctl.first_bad.fetch_min(i, SeqCst);
                    }
                    Verdict::Harness(m) => {
                        if ctl.harness.fetch_add(1, SeqCst) == 0 {
                            eprintln!("sess: harness error in run {}: {m}", o.offset + i);
                        }
                    }
                }
                let mut start = vec![];
                if o.prop == "C19" && flags & 5 == 1 {
                    let e = &plan.env;
                    acc.deals.add(&lab.notes.log, e.ent_eintr + e.ent_short + e.ent_enosys > 0, e.mode, &mut start);
                }
                recs[i as usize] = Rec { hash: r.hash, shape: r.shape, flags, start: start.first().copied().unwrap_or(0) };
                if flags == 3 && i % 53 == 5 {
                    let (st, no) = (lab.stats, lab.notes.clone());
                    acc.reruns += 1;
                    acc.diff += (lab.run(&plan).hash != r.hash) as u64;
                    lab.stats = st;
                    lab.notes = no;
                }
            }
            acc.stats = lab.stats;
            acc.notes = note_values(&lab.notes, acc.skips);
            unsafe { ::libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { ::libc::waitpid(p, &mut st, 0) };
        if !::libc::WIFEXITED(st) || ::libc::WEXITSTATUS(st) != 0 {
            eprintln!("sess: a worker died ({st})");
            return 2;
        }
    }
    if ctl.harness.load(SeqCst) > 0 {
        return 2;
    }
    let secs = t0.elapsed().as_secs_f64();
    let mut st = [0u64; 32];
    let mut no = [0u64; 18];
    let (mut runs, mut skips, mut ns, mut re, mut diff) = (0, 0, 0u64, 0, 0);
    let mut modes = [0; 3];
    for a in accs.iter() {
        st.iter_mut().zip(&a.stats).for_each(|(x, y)| *x += y);
        no.iter_mut().zip(&a.notes).for_each(|(x, y)| *x += y);
        modes.iter_mut().zip(&a.modes).for_each(|(x, y)| *x += y);
        runs += a.runs;
        skips += a.skips;
        ns += a.sim_ns;
        re += a.reruns;
        diff += a.diff;
    }
    let hs: BTreeSet<u64> = recs.iter().filter(|r| r.flags & 3 == 3).map(|r| r.hash).collect();
    let ss: BTreeSet<u64> = recs.iter().filter(|r| r.flags & 1 == 1).map(|r| r.shape).collect();
    let bad = ctl.first_bad.load(SeqCst);
    let mut viol = if bad != u64::MAX && !o.bare { report(o, o.offset + bad) } else { Value::Null };
    let mut stat = Value::Null;
    if o.prop == "C19" {
        let mut all: Box<deals::Deals> = unsafe { Box::new_zeroed().assume_init() };
        accs.iter().for_each(|a| all.merge(&a.deals));
        let mut st: Vec<u64> = recs.iter().map(|r| r.start).filter(|&h| h != 0).collect();
        st.sort_unstable();
        let same = st.windows(2).filter(|w| w[0] == w[1]).count() as u64;
        let (f, v) = all.judge(same);
        stat = v;
        if let (Some((c, d)), true) = (f, viol.is_null()) {
            viol = if o.bare { json!({"class": c, "detail": d}) } else { report_stat(o, runs, &c, &d) };
        }
    }
    let named = |names: &[&str], v: &[u64]| -> Value {
        Value::Object(names.iter().zip(v).filter(|x| *x.1 > 0).map(|(n, v)| (n.to_string(), json!(v))).collect())
    };
    let res = json!({
        "property": o.prop, "seed": o.seed, "profile": o.profile, "runs": runs - skips, "worlds": runs - skips,
        "runs_requested": o.runs, "search_seconds": secs, "simulated_seconds": ns as f64 / 1e9,
        "distinct_nontrivial": hs.len(), "distinct_schedules": ss.len(),
        "world": named(&STAT, &st), "events": named(&NOTE, &no),
        "modes": {"pipe": modes[0], "dumb terminal": modes[1], "terminal": modes[2]},
        "determinism_reruns": re, "determinism_differences": diff, "statistics": stat, "violation": viol,
    });
    let text = serde_json::to_string_pretty(&res).unwrap();
    match &o.out {
        Some(f) => std::fs::write(f, text).unwrap(),
        None => println!("{text}"),
    }
    !viol.is_null() as i32
}

/// What the statistics of these runs say.
fn stat_runs(o: &Opts, runs: u64) -> Option<(String, String)> {
    let out = format!("{}/bare-{}.json", o.replay_dir, std::process::id());
    let q = Opts {
        prop: o.prop.clone(), seed: o.seed, runs, offset: o.offset, workers: o.workers, wall: 900, profile: o.profile.clone(),
        out: Some(out.clone()), replay_dir: o.replay_dir.clone(), bare: true,
    };
    run(&q);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).ok()?).ok()?;
    let _ = std::fs::remove_file(&out);
    let v = &v["violation"];
    Some((v["class"].as_str()?.into(), v["detail"].as_str()?.into()))
}
fn report_stat(o: &Opts, runs: u64, class: &str, detail: &str) -> Value {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let t0 = Instant::now();
    // fewer sessions that show it too
    let mut best = (runs, class.to_string(), detail.to_string());
    let mut n = runs / 2;
    while n >= 1 && t0.elapsed().as_secs() < 40 {
        match stat_runs(o, n) {
            Some((c, d)) if c == class => best = (n, c, d),
            _ => break,
        }
        n /= 2;
    }
    let same = stat_runs(o, best.0).map_or(false, |(c, d)| c == best.1 && d == best.2);
    let f = format!("{}/{}-{}-{}-{}.json", o.replay_dir, o.prop, o.seed, o.offset, o.profile);
    let p = json!({
        "statistic": true, "prop": o.prop, "seed": o.seed, "offset": o.offset, "runs": best.0, "profile": o.profile, "violation": [best.1, best.2],
    });
    std::fs::write(&f, serde_json::to_string_pretty(&p).unwrap()).unwrap();
    json!({"class": best.1, "detail": best.2, "replay": f, "sessions": best.0, "sessions_before": runs, "replays_identical": same as u32})
}

fn size(p: &Plan) -> usize { serde_json::to_string(&(&p.ins, &p.wf)).unwrap().len() }
fn report(o: &Opts, run: u64) -> Value {
    pin(0);
    let t0 = Instant::now();
    let mut lab = Lab::new();
    let plan0 = gens::plan(&o.prop, o.seed, run, &o.profile);
    let r = lab.run(&plan0);
    let save = |p: &Plan| -> String {
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let f = format!("{}/{}-{}-{}-{}.json", o.replay_dir, p.prop, p.seed, p.run, p.profile);
        std::fs::write(&f, serde_json::to_string_pretty(p).unwrap()).unwrap();
        f
    };
    let Verdict::Bad(class, detail) = r.verdict else {
        let mut p = plan0;
        p.violation = Some(("unstable".into(), "violated once, not when run again".into()));
        let f = save(&p);
        return json!({"class": "unstable", "detail": "violated once, not when run again", "replay": f, "run": run});
    };
    let size0 = size(&plan0);
    let mut best = (plan0, detail, r.hash);
    let mut tries = 0;
    let slow = class == "killed";
    let attempt = |lab: &mut Lab, p: Plan, best: &mut (Plan, String, u64), tries: &mut u32| -> bool {
        if *tries > if slow { 4 } else { 2500 } || t0.elapsed().as_secs() > 40 {
            return false;
        }
        *tries += 1;
        let r = lab.run(&p);
        match r.verdict {
            Verdict::Bad(c, d) if c == class => {
                *best = (p, d, r.hash);
                true
            }
            _ => false,
        }
    };
    loop {
        let mut changed = false;
        for f in [
            (|p: &mut Plan| p.wf.clear()) as fn(&mut Plan),
            |p| p.env.ent_eintr = 0,
            |p| p.env.ent_short = 0,
            |p| p.env.ent_enosys = 0,
            |p| p.env.ent_hard_after = 0,
            |p| p.env.clock_tick = 0,
            |p| p.env.mode = 0,
            |p| p.ins.retain(|i| !matches!(i, In::Eintr | In::Winch(_))),
        ] {
            let mut p = best.0.clone();
            f(&mut p);
            if p != best.0 {
                changed |= attempt(&mut lab, p, &mut best, &mut tries);
            }
        }
        let mut chunk = (best.0.ins.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.0.ins.len() {
                let mut p = best.0.clone();
                let end = (at + chunk).min(p.ins.len());
                p.ins.drain(at..end);
                if attempt(&mut lab, p, &mut best, &mut tries) {
                    changed = true;
                } else {
                    at += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // whole lines, wherever reads begin and end
        if best.0.env.mode < 2 && best.0.ins.iter().all(|i| matches!(i, In::Data(_))) {
            let mut p = best.0.clone();
            let all: Vec<u8> = p.ins.iter().flat_map(|i| if let In::Data(d) = i { d.clone() } else { vec![] }).collect();
            p.ins = all.split_inclusive(|&b| b == b'\n').map(|l| In::Data(l.to_vec())).collect();
            if p.ins != best.0.ins && p.ins.len() < MAXIN {
                changed |= attempt(&mut lab, p, &mut best, &mut tries);
            }
        }
        for i in 0..best.0.wf.len() {
            if i < best.0.wf.len() {
                let mut p = best.0.clone();
                p.wf.remove(i);
                changed |= attempt(&mut lab, p, &mut best, &mut tries);
            }
        }
        if !changed || t0.elapsed().as_secs() > 40 {
            break;
        }
    }
    let (mut p, detail, hash) = best;
    let mut ok = 0;
    for _ in 0..2 {
        let r = lab.run(&p);
        ok += (r.hash == hash && matches!(&r.verdict, Verdict::Bad(c, d) if *c == class && *d == detail)) as u32;
    }
    p.violation = Some((class.clone(), detail.clone()));
    p.hash = Some(format!("{hash:016x}"));
    let f = save(&p);
    json!({"class": class, "detail": detail, "replay": f, "run": run, "attempts": tries, "size_before": size0,
        "size_after": size(&p), "replays_identical": ok})
}

fn main() {
    unsafe { LADDER = Some(refmodel::Ladder::new()) };
    let a: Vec<String> = std::env::args().collect();
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    let num = |name: &str, d: u64| opt(name).map_or(d, |v| v.parse().expect("number"));
    let profile = opt("--profile").unwrap_or_else(|| if cfg!(debug_assertions) { "dbg".into() } else { "release".into() });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            if let Err(e) = refmodel::selftest() {
                eprintln!("reference model self-test failed: {e}");
                std::process::exit(2);
            }
            run(&Opts {
                prop: a[2].clone(),
                seed: num("--seed", 1),
                runs: num("--runs", 1000),
                offset: num("--offset", 0),
                workers: num("--workers", 8) as usize,
                wall: num("--wall", 300),
                profile,
                out: opt("--out"),
                replay_dir: opt("--replay-dir").unwrap_or_else(|| "/verif/replays".into()),
                bare: false,
            })
        }
        Some("mine") => {
            gens::mine(num("--n", 1_000_000));
            0
        }
        Some("plan") => {
            let p = gens::plan(&a[2], num("--seed", 1), num("--run", 0), &profile);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        Some("audit") => {
            let mut lab = Lab::new();
            let mut bad = 0;
            for i in 0..num("--runs", 100) {
                let p = gens::plan(&a[2], num("--seed", 1), i, &profile);
                pin(0);
                let x = lab.run(&p).hash;
                pin(1 + i as usize % 6);
                let y = lab.run(&p).hash;
                if x != y {
                    println!("run {i}: {x:016x} {y:016x}");
                    bad += 1;
                }
            }
            println!("{}: {bad} differences", a[2]);
            (bad > 0) as i32
        }
        Some("show") => {
            std::env::set_var("SESS_SHOW", "1");
            let r = Lab::new().run(&gens::plan(&a[2], num("--seed", 1), num("--run", 0), &profile));
            println!("{:?}", r.verdict);
            0
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            if v["statistic"] == json!(true) {
                let n = |k: &str| v[k].as_u64().unwrap();
                let t = |k: &str| v[k].as_str().unwrap().to_string();
                let dir = std::env::temp_dir().to_str().unwrap().to_string();
                let o = Opts { prop: t("prop"), seed: n("seed"), runs: 0, offset: n("offset"), workers: 8, wall: 900, profile: t("profile"), out: None, replay_dir: dir, bare: true };
                let f = stat_runs(&o, n("runs"));
                println!("{}", serde_json::to_string(&f).unwrap());
                let same = f.map(|(c, d)| json!([c, d])) == Some(v["violation"].clone());
                println!("{}", if same { "REPRODUCED" } else { "NOT REPRODUCED" });
                std::process::exit(!same as i32);
            }
            let p: Plan = serde_json::from_value(v).expect("plan");
            let r = Lab::new().run(&p);
            let hash = format!("{:016x}", r.hash);
            match r.verdict {
                Verdict::Bad(c, d) => {
                    println!("violation of {}: {c}: {d}\nevent hash {hash}", p.prop);
                    let same = p.violation == Some((c, d)) && p.hash.as_ref().map_or(true, |h| *h == hash);
                    println!("{}", if same { "REPRODUCED" } else { "NOT REPRODUCED (another violation)" });
                    !same as i32
                }
                v => {
                    println!("{v:?}\nNOT REPRODUCED");
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: sess run ID | replay FILE | plan ID | show ID | mine");
            2
        }
    };
    std::process::exit(code);
}
