//! The simulated program: interprets a plan against the real library, with the
//! oracles for every operation.
use std::{
    any::Any,
    cell::{Cell, RefCell, UnsafeCell},
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap},
    panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::Arc,
};

use poker::{Card, Eval, EvalClass, EvalError, ParseCardError};
use simclient::Ev as Evaluator;
use simclient as cl;

use crate::{
    handgen::HandGen,
    plan::*,
    refmodel::{self as rm, Expect, Key, Ladder},
    rng::{mix64, Rng},
    rt,
};

/// Panic payload of a fault injected in caller code (no size: never allocates).
pub struct Injected;
/// Panic payload of an injected allocation failure.
pub struct AllocFail;

// ------------------------------------------------------- shared with the driver

pub const NC: usize = 47;
pub const COUNTER: [&str; NC] = [
    "operations", "evaluations", "distinct_strengths", "caller_code_panics", "caller_code_errors",
    "caller_code_stalls", "reentrant_calls", "allocation_faults_reached_caller", "retries_after_fault",
    "evaluator_constructions", "evaluator_clones", "evaluator_drops", "evaluator_moves", "evaluator_comparisons",
    "decks_generated", "decks_shuffled_os", "decks_shuffled_given_rng", "hostile_draws", "draws", "interrupted_shuffles",
    "messages", "message_tokens", "link_drop", "link_duplicate", "link_reorder", "link_corrupt", "link_truncate",
    "link_other", "parser_steps", "source_pauses", "source_panics", "varying_answers", "formats", "failed_writes",
    "deliveries", "gossip_merges", "observer_restarts", "pair_comparisons", "entropy_failures_seen", "size_errors",
    "cards_built", "lists_ordered", "long_run_calls", "same_call_repeated", "evaluators_alive_together", "numbered_cases", "forks",
];
#[derive(Clone, Copy)]
#[repr(usize)]
pub enum C {
    Ops, Evals, Strengths, HookPanics, HookErrs, Stalls, Reenter, AllocFaults, Retries, News, Clones, Drops, Moves,
    Cmps, Gens, ShufOs, ShufWith, Hostile, Draws, ShufCut, Msgs, Toks, LDrop, LDup, LReorder, LCorrupt, LTrunc,
    LOther, PSteps, Pauses, SrcPanics, Varying, Fmts, FailW, Deliver, Gossip, Restart, Pairs, EntFail, SizeErr, Made, Ordered, Soaked, Again, Hoarded, Swept, Forks,
}
pub const OUTBUF: usize = 1 << 19;
#[repr(C)]
pub struct Out {
    pub status: u32, // 0 nothing, 1 fine, 2 violation, 3 harness error
    pub len: u32,
    pub counters: [u64; NC],
    pub buf: [u8; OUTBUF],
}
pub static mut OUT: *mut Out = std::ptr::null_mut();

fn out() -> &'static mut Out { unsafe { &mut *OUT } }

/// Record the verdict of this run and end the process.
pub fn finish(status: u32, body: &str) -> ! { finish_bytes(status, body.as_bytes()) }
pub fn finish_bytes(status: u32, b: &[u8]) -> ! {
    let o = out();
    let n = b.len().min(OUTBUF);
    o.buf[..n].copy_from_slice(&b[..n]);
    o.len = n as u32;
    o.counters = w().counters;
    o.status = status;
    unsafe { libc_exit(0) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}
pub fn fail(class: &str, detail: impl Into<String>) -> ! {
    let d: String = detail.into();
    let _ = rt::op_suspend();
    finish(2, &serde_json::to_string(&(class.to_string(), d)).unwrap())
}

// ----------------------------------------------------------------------- state

pub struct Stalled {
    tid: i32,
    left: u32,
}
pub struct World {
    pub counters: [u64; NC],
    evs: Vec<Option<Arc<Evaluator>>>,
    /// every answer of the downloaded table is compared with this evaluator's
    table: Option<Arc<Evaluator>>,
    seen: Vec<Option<(Eval, u64)>>,
    pub n_seen: usize,
    gen_order: Option<Vec<u8>>,
    made: Vec<Option<Card>>,
    streams: BTreeMap<String, (Vec<u8>, u32, u64, String)>,
    pub os_decks: Vec<Vec<u8>>,
    kept: Vec<Option<(Vec<Card>, Vec<u8>)>>,
    texts: BTreeMap<String, String>,
    players: BTreeMap<u8, (Hand, Eval)>,
    stalled: Vec<Stalled>,
    total: usize,
    done: usize,
    pub transcript: BTreeMap<String, String>,
    pub hard_entropy: bool,
    pub want_transcript: bool,
    n_os: u32,
    depth: u32,
    /// per thread: [given, length] and its decks in order
    pub dealt: Vec<(bool, Vec<u8>)>,
}
struct SimCell(UnsafeCell<Option<World>>);
// One thread runs at a time, and there is no scheduling point while a borrow is live.
unsafe impl Sync for SimCell {}
static W: SimCell = SimCell(UnsafeCell::new(None));
pub static mut LADDER: Option<Ladder> = None;
#[allow(static_mut_refs)]
pub fn ladder() -> &'static Ladder { unsafe { LADDER.as_ref().unwrap() } }
pub fn w() -> &'static mut World { unsafe { (*W.0.get()).as_mut().unwrap() } }
fn count(c: C) { w().counters[c as usize] += 1 }
fn count_n(c: C, n: u64) { w().counters[c as usize] += n }

const SLOTS: usize = 6;

pub fn reset() {
    unsafe {
        *W.0.get() = Some(World {
            counters: [0; NC],
            evs: (0..SLOTS).map(|_| None).collect(),
            table: None,
            seen: vec![None; rm::CLASSES],
            n_seen: 0,
            gen_order: None,
            made: vec![None; 52],
            streams: BTreeMap::new(),
            os_decks: Vec::new(),
            kept: (0..8).map(|_| None).collect(),
            texts: BTreeMap::new(),
            players: BTreeMap::new(),
            stalled: Vec::new(),
            total: 0,
            done: 0,
            transcript: BTreeMap::new(),
            hard_entropy: false,
            want_transcript: false,
            n_os: 0,
            depth: 0,
            dealt: Vec::new(),
        });
    }
}

// ------------------------------------------------------------------- callbacks

#[derive(Default)]
struct Cx {
    panicked: Cell<bool>,
    errored: Cell<bool>,
}
struct H<'a> {
    hooks: &'a [Hk],
    cx: &'a Cx,
    path: &'a str,
}
impl H<'_> {
    /// run what the plan has the caller do here; true = report an error
    fn run(&self, n: u32) -> bool {
        rt::seam();
        let mut err = false;
        for h in self.hooks {
            if h.at != n {
                continue;
            }
            match &h.act {
                Act::Panic => {
                    count(C::HookPanics);
                    self.cx.panicked.set(true);
                    rt::log(0xA11);
                    panic_any(Injected)
                }
                Act::Err => {
                    count(C::HookErrs);
                    self.cx.errored.set(true);
                    err = true;
                }
                Act::Stall(k) => stall(*k),
                Act::Yield => std::thread::yield_now(),
                Act::Sleep(ns) => std::thread::sleep(std::time::Duration::from_nanos(*ns)),
                Act::Call(op) => {
                    let st = rt::op_suspend();
                    count(C::Reenter);
                    run_op(op, &format!("{}.{}", self.path, n));
                    rt::op_resume(st);
                }
            }
        }
        err
    }
}
impl cl::Hook for H<'_> {
    fn at(&self, n: u32) { self.run(n); }
}

fn stall(k: u32) {
    let t = rt::tid();
    if t <= 0 {
        return; // the main thread is never stalled
    }
    let st = rt::op_suspend();
    count(C::Stalls);
    let x = w();
    if x.done + x.stalled.len() + 1 >= x.total {
        release_one(0);
    } else {
        x.stalled.push(Stalled { tid: t, left: k });
        rt::stall();
    }
    rt::op_resume(st);
}
fn release_one(i: usize) {
    let x = w();
    if i < x.stalled.len() {
        let s = x.stalled.remove(i);
        rt::release(s.tid);
    }
}
fn op_finished() {
    let x = w();
    let mut i = 0;
    while i < x.stalled.len() {
        if x.stalled[i].left > 0 {
            x.stalled[i].left -= 1;
            if x.stalled[i].left == 0 {
                release_one(i);
                continue;
            }
        }
        i += 1;
    }
}
fn thread_finished() {
    let x = w();
    x.done += 1;
    if !x.stalled.is_empty() && x.done + x.stalled.len() >= x.total {
        release_one(0);
    }
}

// ---------------------------------------------------------------------- calls

enum Got<T> {
    Ok(T),
    Injected,
    AllocFail,
    Panic(String),
}
struct Called<T> {
    got: Got<T>,
    alloc_fired: bool,
    net: i64,
}
/// Where the last unexpected panic happened (filled by the panic hook).
static mut PANIC_AT: [u8; 160] = [0; 160];
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Injected>() || i.payload().is::<AllocFail>() {
            return;
        }
        if let Some(l) = i.location() {
            use std::io::Write;
            unsafe {
                #[allow(static_mut_refs)]
                let mut b: &mut [u8] = &mut PANIC_AT;
                for x in b.iter_mut() {
                    *x = 0;
                }
                let _ = write!(b, "{}:{}", l.file(), l.line());
            }
        }
    }));
}
fn panic_text(p: &Box<dyn Any + Send>) -> String {
    let m = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(other payload)".into());
    #[allow(static_mut_refs)]
    let at = unsafe { String::from_utf8_lossy(&PANIC_AT).trim_end_matches('\0').to_string() };
    format!("{m} at {at}")
}

fn call<T>(alloc: u32, f: impl FnOnce() -> T) -> Called<T> {
    let old = rt::op_enter(alloc);
    let r = catch_unwind(AssertUnwindSafe(f));
    let st = rt::op_suspend(); // our own allocations below do not count
    let alloc_fired = alloc > 0 && st.fail_in == 0 && st.allocs >= alloc as u64;
    let (got, net) = match r {
        Ok(v) => (Got::Ok(v), st.net),
        Err(p) if p.is::<Injected>() => (Got::Injected, st.net),
        Err(p) if p.is::<AllocFail>() => (Got::AllocFail, st.net),
        Err(p) => {
            let t = panic_text(&p);
            let before = rt::op_suspend();
            drop(p);
            let freed = rt::op_suspend().net;
            rt::op_resume(before);
            (Got::Panic(t), st.net + freed)
        }
    };
    rt::op_resume(old);
    Called { got, alloc_fired, net }
}

#[derive(Default, Clone, Copy)]
struct Fired {
    fault: bool,
    leak: i64,
}

/// Sort a call's outcome into "returned this" or "died of the injected fault".
fn settle<T>(what: &str, c: Called<T>, cx: &Cx) -> Result<T, Fired> {
    let fired = Fired { fault: true, leak: c.net };
    if c.alloc_fired {
        count(C::AllocFaults);
    }
    match c.got {
        Got::Ok(v) => {
            if cx.panicked.get() {
                fail("fault-swallowed", format!("{what}: caller code panicked, but the call returned"));
            }
            Ok(v)
        }
        Got::Injected => {
            if !cx.panicked.get() {
                fail("foreign-panic", format!("{what}: panicked with a panic injected into another call"));
            }
            Err(fired)
        }
        Got::AllocFail => {
            if !c.alloc_fired {
                fail("foreign-panic", format!("{what}: panicked with another call's allocation failure"));
            }
            Err(fired)
        }
        Got::Panic(m) => {
            if c.alloc_fired && !cx.panicked.get() {
                return Err(fired);
            }
            fail("panic", format!("{what}: panicked: {m}"))
        }
    }
}

// ------------------------------------------------------------------ evaluation

fn slot_ev(slot: u8) -> Arc<Evaluator> {
    let i = slot as usize % SLOTS;
    if w().evs[i].is_none() {
        // first use of a slot creates its evaluator
        count(C::News);
        let e = match settle("Evaluator::new", call(0, cl::ev_new), &Cx::default()) {
            Ok(e) => e,
            Err(_) => unreachable!(),
        };
        // another thread may have filled the slot meanwhile: keep the first
        let x = w();
        if let Some(other) = x.evs[i].clone() {
            drop_ev(Arc::new(e));
            return other;
        }
        let e = Arc::new(e);
        x.evs[i] = Some(e.clone());
        return e;
    }
    w().evs[i].clone().unwrap()
}
fn drop_ev(e: Arc<Evaluator>) {
    if Arc::strong_count(&e) == 1 {
        count(C::Drops);
    }
    let _ = settle("drop of an evaluator", call(0, move || drop(e)), &Cx::default());
}

fn show_hand(h: &[u8]) -> String { format!("[{}]", rm::texts(h)) }

fn preds(e: &Eval) -> [bool; 10] {
    [
        e.is_high_card(), e.is_pair(), e.is_two_pair(), e.is_three_of_a_kind(), e.is_straight(), e.is_flush(),
        e.is_full_house(), e.is_four_of_a_kind(), e.is_straight_flush(), e.is_royal_flush(),
    ]
}
fn same_cards(c: &[Card], h: &[u8]) -> bool { c.len() == h.len() && c.iter().zip(h).all(|(c, &i)| *c == rm::card(i)) }

/// `None` if `r` is right for hand `h`, else what is wrong.
fn wrong(h: &[u8], r: &Result<Eval, EvalError>) -> Option<String> {
    let few = |r: &Result<Eval, EvalError>| matches!(r, Err(EvalError::InvalidHandSize(n)) if *n == h.len());
    let dup = |r: &Result<Eval, EvalError>| matches!(r, Err(EvalError::CardsNotUnique(c)) if same_cards(c, h));
    match rm::expect(h) {
        Expect::Ok(k) => match r {
            Ok(e) => {
                if e.class() != rm::class(k) {
                    Some(format!("class {:?}, should be {:?}", e.class(), rm::class(k)))
                } else if preds(e) != rm::predicates(k) {
                    Some(format!("is_* predicates {:?} for {}", preds(e), rm::name(k)))
                } else {
                    None
                }
            }
            Err(e) => Some(format!("error {e:?} for a valid hand")),
        },
        Expect::Few(n) => (!few(r)).then(|| format!("gave {r:?}, should be the error for {n} cards")),
        Expect::Dup(_) => (!dup(r)).then(|| format!("gave {r:?}, should be the duplicate error with these cards")),
        Expect::Either(_) => {
            (!few(r) && !dup(r)).then(|| format!("gave {r:?}, should be the size or the duplicate error for these cards"))
        }
    }
}
/// Note a right result, so that its strength is compared with every other's.
fn note(h: &[u8], r: &Result<Eval, EvalError>) {
    count(C::Evals);
    if let (Ok(e), Expect::Ok(k)) = (r, rm::expect(h)) {
        note_key(k, rm::mask(h), *e);
    }
}
fn note_key(k: Key, m: u64, e: Eval) {
    let x = w();
    let p = ladder().pos(k);
    match &x.seen[p] {
        None => {
            x.seen[p] = Some((e, m));
            x.n_seen += 1;
            x.counters[C::Strengths as usize] += 1;
        }
        Some((f, m2)) => {
            if *f != e {
                fail(
                    "unequal-strength",
                    format!(
                        "{} and {} are hands of equal strength ({}) but compare unequal: {e:?} and {f:?}",
                        show_hand(&rm::unmask(m)),
                        show_hand(&rm::unmask(*m2)),
                        rm::name(k)
                    ),
                );
            }
        }
    }
}

fn alike(a: &Result<Eval, EvalError>, b: &Result<Eval, EvalError>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            a == b
                && !(a != b)
                && a.cmp(b) == std::cmp::Ordering::Equal
                && a.class() == b.class()
                && preds(a) == preds(b)
                && a.to_string() == b.to_string()
        }
        (Err(a), Err(b)) => a == b && a.to_string() == b.to_string(),
        _ => false,
    }
}
/// The downloaded table must answer like a table built at run time.
fn check_same(what: &str, presented: &[&Hand], r: &Result<Eval, EvalError>, table: Arc<Evaluator>) {
    count(C::Evals);
    let mut first = None;
    for h in presented {
        let c = rm::cards(h);
        let t = plain("evaluation with the built table", || cl::eval_slice(&table, &c));
        if alike(r, &t) {
            return;
        }
        first.get_or_insert(t);
    }
    let hands = presented.iter().map(|h| show_hand(h)).collect::<Vec<_>>().join(" then ");
    fail("tables-differ", format!("{what} of {hands}: the downloaded table gives {r:?}, the built one {:?}", first.unwrap()));
}

fn check_eval(ev: &Evaluator, what: &str, presented: &[&Hand], r: &Result<Eval, EvalError>) {
    if let Some(t) = w().table.clone() {
        if !matches!(ev, Evaluator::Built(_)) {
            check_same(what, presented, r, t);
        }
        return;
    }
    let mut first = None;
    for h in presented {
        match wrong(h, r) {
            None => {
                note(h, r);
                return;
            }
            Some(d) => {
                first.get_or_insert(d);
            }
        }
    }
    let hands = presented.iter().map(|h| show_hand(h)).collect::<Vec<_>>().join(" then ");
    let class = match r {
        Ok(_) => "wrong-result",
        Err(_) => "wrong-error",
    };
    fail(class, format!("{what} of {hands}: {}", first.unwrap_or_default()));
}

fn bulk_eval(ev: &Evaluator, h: &[u8], how: u8) {
    let mut buf = [Card::new(poker::Rank::Two, poker::Suit::Clubs); 52];
    let long;
    let c = if h.len() <= buf.len() {
        for (i, &c) in h.iter().enumerate() {
            buf[i] = rm::card(c);
        }
        &buf[..h.len()]
    } else {
        long = rm::cards(h);
        &long[..]
    };
    let r = settle(
        "evaluate",
        call(0, || if how == 0 { cl::eval_slice(ev, c) } else { cl::eval_in(ev, how, c) }),
        &Cx::default(),
    );
    if let Ok(r) = r {
        let hv = h.to_vec();
        check_eval(ev, "evaluation", &[&hv], &r);
    }
}

fn run_ladder(ev: &Evaluator, what: &str) -> Vec<Eval> {
    let l = ladder();
    let mut v: Vec<Eval> = Vec::with_capacity(rm::CLASSES);
    for i in 0..rm::CLASSES {
        let h = &l.hands[i];
        let c = [rm::card(h[0]), rm::card(h[1]), rm::card(h[2]), rm::card(h[3]), rm::card(h[4])];
        let r = match settle(what, call(0, || cl::eval_slice(ev, &c)), &Cx::default()) {
            Ok(r) => r,
            Err(_) => unreachable!(),
        };
        check_eval(ev, what, &[&h.to_vec()], &r);
        let Ok(e) = r else { continue };
        if w().table.is_some() {
            v.push(e);
            continue;
        }
        if let Some(p) = v.last() {
            if !(e > *p) || !(*p < e) || e == *p {
                fail(
                    "wrong-order",
                    format!(
                        "{what}: {} ({}) must beat {} ({}), but {e:?} vs {p:?}",
                        show_hand(h),
                        rm::name(l.keys[i]),
                        show_hand(&l.hands[i - 1]),
                        rm::name(l.keys[i - 1])
                    ),
                );
            }
        }
        v.push(e);
    }
    v
}

// -------------------------------------------------------------------- shuffles

/// The draw function of a stream specification.
struct Stream<'a> {
    spec: &'a RngSpec,
    healthy: Rng,
    seg: usize,
    in_seg: u32,
    after: u32,
    hostile: u64,
}
impl<'a> Stream<'a> {
    fn new(spec: &'a RngSpec) -> Self {
        Stream { spec, healthy: Rng::new(spec.seed, 0x5157, 1), seg: 0, in_seg: 0, after: 0, hostile: 0 }
    }
    fn next(&mut self) -> u64 {
        while self.seg < self.spec.segs.len() && self.in_seg >= self.spec.segs[self.seg].1 {
            self.seg += 1;
            self.in_seg = 0;
        }
        if self.seg >= self.spec.segs.len() {
            self.after += 1;
            return self.healthy.next();
        }
        self.hostile += 1;
        let i = self.in_seg as u64;
        self.in_seg += 1;
        match &self.spec.segs[self.seg].0 {
            SegKind::Zero => 0,
            SegKind::Ones => u64::MAX,
            SegKind::Const(c) => *c,
            SegKind::Alternate(a, b) => if i % 2 == 0 { *a } else { *b },
            SegKind::Counter(s) => s.wrapping_add(i),
            SegKind::Period(p) => p[i as usize % p.len()],
            SegKind::LowBits(n) => self.healthy.next() & ((1u64 << (n % 64)) - 1),
            SegKind::HighBits(n) => self.healthy.next() << (64 - (n % 63 + 1)),
            SegKind::Same(s, from) => Rng::new(*s, 0x5a3e, i + *from as u64).next(),
        }
    }
}
const DRAW_BOUND: u32 = 52 * 256;

fn deck_check(what: &str, d: &[Card]) -> Vec<u8> {
    let v: Vec<u8> = d.iter().map(|&c| rm::idx(c)).collect();
    if v.iter().zip(d).any(|(&i, c)| rm::card(i) != *c) {
        fail("bad-deck", format!("{what}: contains a card that no rank and suit make"));
    }
    if v.len() != 52 || rm::has_dup(&v) {
        let missing: Vec<u8> = (0..52).filter(|c| !v.contains(c)).collect();
        fail(
            "bad-deck",
            format!("{what}: {} cards, missing {}, deck {}", v.len(), show_hand(&missing), show_hand(&v)),
        );
    }
    v
}
fn gen_order_check(what: &str, v: &[u8]) {
    let x = w();
    match &x.gen_order {
        None => {
            if v.len() == 52 {
                x.gen_order = Some(v.to_vec());
            }
        }
        Some(g) => {
            if v != &g[..v.len().min(52)] {
                fail(
                    "generate-order",
                    format!("{what}: generated order differs from an earlier one: {} then {}", show_hand(g), show_hand(v)),
                );
            }
        }
    }
}
fn keep_deck(keep: u8, d: Vec<Card>) {
    let x = w();
    let n = x.kept.len();
    let i = keep as usize % n;
    kept_check(i);
    x.kept[i] = Some((d, Vec::new()));
}
fn kept_check(i: usize) {
    if let Some((rest, dealt)) = &w().kept[i] {
        let mut v: Vec<u8> = dealt.clone();
        v.extend(rest.iter().map(|&c| rm::idx(c)));
        if v.len() != 52 || rm::has_dup(&v) {
            fail("bad-deck", format!("a kept deck changed under its owner: {}", show_hand(&v)));
        }
    }
}

// -------------------------------------------------------------------- messages

fn tok_pos(toks: &[String], i: u32) -> Option<usize> {
    if toks.is_empty() { None } else { Some(i as usize % toks.len()) }
}
/// Put a message through the faulty link; the receiver decodes what arrives.
pub fn transmit(hand: &[u8], faults: &[LinkFault]) -> String {
    let mut toks: Vec<String> = hand.iter().map(|&c| rm::text(c)).collect();
    let mut seps: BTreeMap<usize, String> = BTreeMap::new();
    for f in faults {
        match f {
            LinkFault::DropTok(i) => {
                if let Some(p) = tok_pos(&toks, *i) {
                    toks.remove(p);
                    count(C::LDrop);
                }
            }
            LinkFault::DupTok(i, j) => {
                if let Some(p) = tok_pos(&toks, *i) {
                    let t = toks[p].clone();
                    let q = *j as usize % (toks.len() + 1);
                    toks.insert(q, t);
                    count(C::LDup);
                }
            }
            LinkFault::SwapTok(i, j) => {
                if let (Some(p), Some(q)) = (tok_pos(&toks, *i), tok_pos(&toks, *j)) {
                    toks.swap(p, q);
                    count(C::LReorder);
                }
            }
            LinkFault::JoinTok(i) => {
                if toks.len() > 1 {
                    let p = *i as usize % (toks.len() - 1);
                    let t = toks.remove(p + 1);
                    toks[p].push_str(&t);
                    count(C::LCorrupt);
                }
            }
            LinkFault::CaseTok(i) => {
                if let Some(p) = tok_pos(&toks, *i) {
                    toks[p] = toks[p]
                        .chars()
                        .map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                        .collect();
                    count(C::LCorrupt);
                }
            }
            LinkFault::ReplaceCh(i, k, s) => {
                if let Some(p) = tok_pos(&toks, *i) {
                    let n = toks[p].chars().count().max(1);
                    let k = *k as usize % n;
                    toks[p] =
                        toks[p].chars().enumerate().map(|(j, c)| if j == k { s.clone() } else { c.to_string() }).collect();
                    count(C::LCorrupt);
                }
            }
            LinkFault::InsertCh(i, k, s) => {
                if let Some(p) = tok_pos(&toks, *i) {
                    let mut ch: Vec<String> = toks[p].chars().map(|c| c.to_string()).collect();
                    let k = *k as usize % (ch.len() + 1);
                    ch.insert(k, s.clone());
                    toks[p] = ch.concat();
                    count(C::LCorrupt);
                }
            }
            LinkFault::Space(i, s) => {
                seps.insert(*i as usize % toks.len().max(1), s.clone());
                count(C::LOther);
            }
            LinkFault::Late(h) => {
                toks.extend(h.iter().map(|&c| rm::text(c)));
                count(C::LOther);
            }
            _ => {}
        }
    }
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(seps.get(&i).map_or(" ", |x| x.as_str()));
        }
        s.push_str(t);
    }
    if let Some(x) = seps.get(&0) {
        s.push_str(x);
    }
    let mut b = s.into_bytes();
    let mut latin = false;
    for f in faults {
        let n = b.len();
        match f {
            LinkFault::Truncate(k) if n > 0 => {
                b.truncate(*k as usize % n);
                count(C::LTrunc);
            }
            LinkFault::FlipBit(p, bit) if n > 0 => {
                b[*p as usize % n] ^= 1 << (bit % 8);
                count(C::LCorrupt);
            }
            LinkFault::SetByte(p, v) if n > 0 => {
                b[*p as usize % n] = *v;
                count(C::LCorrupt);
            }
            LinkFault::DropByte(p) if n > 0 => {
                b.remove(*p as usize % n);
                count(C::LDrop);
            }
            LinkFault::Latin1 => {
                latin = true;
                count(C::LOther);
            }
            _ => {}
        }
    }
    if latin {
        b.iter().map(|&x| x as char).collect()
    } else {
        String::from_utf8_lossy(&b).into_owned()
    }
}

fn perr_wrong(s: &str, r: &Result<Card, ParseCardError>) -> Option<String> {
    match (rm::parse(s), r) {
        (Ok(c), Ok(k)) => (*k != rm::card(c)).then(|| format!("{s:?} read as {}", k.rank_suit_string())),
        (Ok(_), Err(e)) => Some(format!("{s:?} refused: {e:?}")),
        (Err(m), Ok(k)) => Some(format!("{s:?} read as {} but is invalid ({m:?})", k.rank_suit_string())),
        (Err(m), Err(e)) => {
            let ok = match (&m, e) {
                (rm::PErr::Len, ParseCardError::InvalidLength { original_input }) => original_input == s,
                (rm::PErr::Rank(c), ParseCardError::InvalidRank { original_input, incorrect_char }) => {
                    original_input == s && incorrect_char == c
                }
                (rm::PErr::Suit(c), ParseCardError::InvalidSuit { original_input, incorrect_char }) => {
                    original_input == s && incorrect_char == c
                }
                _ => false,
            };
            (!ok).then(|| format!("{s:?} gave {e:?}, should be {m:?} naming that text"))
        }
    }
}
fn perr_msg_check(s: &str, e: &ParseCardError) {
    let want = rm::parse_msg(s, &rm::parse(s).unwrap_err());
    let got = match settle("printing a parse error", call(0, || cl::to_string(e)), &Cx::default()) {
        Ok(g) => g,
        Err(_) => return,
    };
    if got != want {
        fail("wrong-message", format!("message for {s:?} is {got:?}, should be {want:?}"));
    }
}
fn plain<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match settle(what, call(0, f), &Cx::default()) {
        Ok(v) => v,
        Err(_) => unreachable!(),
    }
}

/// What is read between two readings of a token: it reversed, with another end, another start.
const BESIDE: [(u8, char); 9] =
    [(0, ' '), (1, 'c'), (1, 'd'), (1, 'h'), (1, 's'), (2, '2'), (2, '4'), (2, '9'), (2, 'A')];
fn msg_once(hand: &[u8], faults: &[LinkFault], how: u8, slot: u8, path: &str) {
    count(C::Msgs);
    let text = transmit(hand, faults);
    let toks: Vec<String> = text.split_whitespace().map(|s| s.to_string()).collect();
    count_n(C::Toks, toks.len() as u64);
    rt::log_str(&text);
    // every token on its own, and by every way of reading a list
    let all: Vec<Result<Card, ParseCardError>> = match how % 4 {
        0 => plain("parsing a message", || cl::parse_text_all(&text)),
        1 if how >= 56 => {
            // every token in the same buffer, others in it in between
            let mut buf = String::with_capacity(64);
            let mut put = |t: &str| {
                buf.clear();
                buf.push_str(t);
                plain("parsing a token", || cl::parse_str(&buf))
            };
            toks.iter()
                .map(|t| {
                    let first = put(t);
                    for (b, s) in BESIDE {
                        let (a, mut other) = (t.chars().next(), t.chars());
                        other.next();
                        let side = match b {
                            0 => t.chars().rev().collect::<String>(),
                            1 => format!("{}{s}", a.unwrap_or('x')),
                            _ => format!("{s}{}", other.as_str()),
                        };
                        if let Some(d) = perr_wrong(&side, &put(&side)) {
                            fail("misread", format!("read in the place of {t:?}: {d}"));
                        }
                    }
                    let again = put(t);
                    if first != again {
                        fail("misread", format!("{t:?} read as {first:?} and then, in the same place, as {again:?}"));
                    }
                    again
                })
                .collect()
        }
        2 => plain("parsing a list of tokens", || cl::parse_macro_list(&toks)),
        _ => toks.iter().map(|t| plain("parsing a token", || cl::parse_card_macro(t))).collect(),
    };
    if all.len() != toks.len() {
        fail("wrong-count", format!("{text:?}: {} results for {} tokens", all.len(), toks.len()));
    }
    for (t, r) in toks.iter().zip(&all) {
        if let Some(d) = perr_wrong(t, r) {
            fail("misread", format!("in message {text:?}: {d}"));
        }
        if let Err(e) = r {
            perr_msg_check(t, e);
        }
    }
    let got = if how & 4 == 0 {
        plain("reading a message", || cl::parse_text(&text))
    } else {
        plain("reading a list of tokens", || cl::parse_strs(&toks))
    };
    let first_bad = toks.iter().find(|t| rm::parse(t).is_err());
    match (&got, first_bad) {
        (Ok(c), None) => {
            let want: Vec<u8> = toks.iter().map(|t| rm::parse(t).unwrap()).collect();
            if !same_cards(c, &want) {
                fail("misread", format!("message {text:?} read as {c:?}"));
            }
            if faults.is_empty() && want != hand {
                fail("misread", format!("undamaged text of {} read as {}", show_hand(hand), show_hand(&want)));
            }
            let ev = slot_ev(slot);
            // a hand that gained cards on the way is evaluated in one go all the same
            if want.len() <= 14 || rm::has_dup(&want) {
                let r = plain("evaluating received cards", || cl::eval_in(&ev, how / 8, c));
                check_eval(&ev, "evaluation of received cards", &[&want], &r);
                if let Err(e) = &r {
                    let m = plain("printing an evaluation error", || cl::to_string(e));
                    let ok = match e {
                        EvalError::InvalidHandSize(_) => m == rm::size_msg(want.len()),
                        EvalError::CardsNotUnique(_) => rm::dup_msg_ok(&m, &want),
                    };
                    if !ok {
                        fail("wrong-message", format!("message for {} is {m:?}", show_hand(&want)));
                    }
                    count(C::SizeErr);
                }
            }
            drop_ev(ev);
        }
        (Err(e), Some(t)) => {
            if let Some(d) = perr_wrong(t, &Err(e.clone())) {
                fail("wrong-error", format!("message {text:?}: error is not that of the first bad token: {d}"));
            }
        }
        (Ok(c), Some(t)) => fail("misread", format!("message {text:?} with bad token {t:?} read as {c:?}")),
        (Err(e), None) => fail("wrong-error", format!("message {text:?} has no bad token but gave {e:?}")),
    }
    record(path, 'M', || format!("{text:?} {all:?}"));
}

fn record(path: &str, kind: char, f: impl FnOnce() -> String) {
    if w().want_transcript {
        let mut s = f();
        if s.len() > 2000 {
            let h = rt::text_hash(&s);
            s = format!("{}... ({} bytes, {h:x})", s.chars().take(300).collect::<String>(), s.len());
        }
        w().transcript.insert(format!("{kind}:{path}"), s);
    }
}

// --------------------------------------------------------------------- parsers

struct SrcState {
    items: Vec<Item>,
    pos: usize,
    hint: u8,
    pulls: u32,
    str_calls: u32,
}
type Src = Rc<RefCell<SrcState>>;
struct SeamIter<'a> {
    src: Src,
    h: &'a H<'a>,
}
struct SeamStr<'a> {
    answers: Vec<String>,
    panics: bool,
    n: Cell<u32>,
    src: Src,
    h: &'a H<'a>,
}
impl AsRef<str> for SeamStr<'_> {
    fn as_ref(&self) -> &str {
        let n = self.n.get() + 1;
        self.n.set(n);
        let k = {
            let mut s = self.src.borrow_mut();
            s.str_calls += 1;
            s.str_calls
        };
        self.h.run(1000 + k);
        if self.panics {
            count(C::SrcPanics);
            self.h.cx.panicked.set(true);
            panic_any(Injected)
        }
        &self.answers[(n as usize - 1) % self.answers.len()]
    }
}
impl<'a> SeamIter<'a> {
    fn pull(&mut self) -> Option<SeamStr<'a>> {
        let st = rt::op_suspend();
        let r = {
            let mut s = self.src.borrow_mut();
            s.pulls += 1;
            s.pulls
        };
        rt::op_resume(st);
        self.h.run(r);
        let st = rt::op_suspend();
        let item = {
            let mut s = self.src.borrow_mut();
            let p = s.pos;
            if p < s.items.len() {
                s.pos += 1;
                Some(s.items[p].clone())
            } else {
                None
            }
        };
        let out = match item {
            None => None,
            Some(Item::Pause) => {
                count(C::Pauses);
                None
            }
            Some(Item::Panic) => {
                count(C::SrcPanics);
                self.h.cx.panicked.set(true);
                rt::op_resume(st);
                panic_any(Injected)
            }
            Some(Item::Str(s)) => Some((vec![s], false)),
            Some(Item::Vary(v)) => {
                count(C::Varying);
                Some((v, false))
            }
            Some(Item::PanicStr(s)) => Some((vec![s], true)),
        };
        let r = out.map(|(answers, panics)| SeamStr { answers, panics, n: Cell::new(0), src: self.src.clone(), h: self.h });
        rt::op_resume(st);
        r
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let s = self.src.borrow();
        let rest = s.items[s.pos..].iter().position(|i| matches!(i, Item::Pause)).unwrap_or(s.items.len() - s.pos);
        let sure = s.items[s.pos..].iter().take(rest).position(|i| matches!(i, Item::Panic)).unwrap_or(rest);
        match s.hint % 6 {
            0 => (0, None),
            1 => (sure, Some(rest)),
            2 => (sure / 2, Some(rest * 2 + 7)),
            3 => (0, Some(usize::MAX)),
            4 => (sure.min(1), None),
            // all it will ever deliver, pauses or not
            _ => {
                let all = s.items[s.pos..].iter().filter(|i| !matches!(i, Item::Pause)).count();
                (all, Some(all))
            }
        }
    }
}
impl<'a> Iterator for SeamIter<'a> {
    type Item = SeamStr<'a>;
    fn next(&mut self) -> Option<SeamStr<'a>> { self.pull() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint() }
}
/// The same source yielding plain owned strings.
struct PlainIter<'a>(SeamIter<'a>);
impl Iterator for PlainIter<'_> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        let s = self.0.pull()?;
        let st = rt::op_suspend();
        let t = s.answers[0].clone();
        drop(s);
        rt::op_resume(st);
        Some(t)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.hint() }
}

/// One pull of the model: what the next string becomes.
enum Pulled {
    End,
    SrcPanic,
    StrPanic,
    One(Vec<String>),
}
fn model_pull(items: &[Item], pos: &mut usize, plain: bool) -> Pulled {
    if *pos >= items.len() {
        return Pulled::End;
    }
    *pos += 1;
    match &items[*pos - 1] {
        Item::Pause => Pulled::End,
        Item::Panic => Pulled::SrcPanic,
        Item::Str(s) => Pulled::One(vec![s.clone()]),
        Item::Vary(v) if plain => Pulled::One(vec![v[0].clone()]),
        Item::Vary(v) => Pulled::One(v.clone()),
        Item::PanicStr(s) if plain => Pulled::One(vec![s.clone()]),
        Item::PanicStr(_) => Pulled::StrPanic,
    }
}
fn one_ok(answers: &[String], r: &Result<Card, ParseCardError>) -> bool { answers.iter().any(|a| perr_wrong(a, r).is_none()) }

#[allow(clippy::too_many_arguments)]
fn run_parse(
    items: &[Item],
    kind: u8,
    hint: u8,
    parsers: u8,
    steps: &[Step],
    hooks: &[Hk],
    alloc: u32,
    path: &str,
) -> Fired {
    let cx = Cx::default();
    let h = H { hooks, cx: &cx, path };
    let src: Src = Rc::new(RefCell::new(SrcState { items: items.to_vec(), pos: 0, hint, pulls: 0, str_calls: 0 }));
    let plain_src = kind % 2 == 1;
    let np = (parsers as usize).clamp(1, 3);
    let mut ps: Vec<Option<Box<dyn cl::DynParser + '_>>> = Vec::new();
    for _ in 0..np {
        let it = SeamIter { src: src.clone(), h: &h };
        let p = plain("parse_to_iter", || match kind % 4 {
            0 => cl::parser(it),
            1 => cl::parser(PlainIter(it)),
            2 => cl::parser(Box::new(it) as Box<dyn Iterator<Item = SeamStr<'_>> + '_>),
            _ => cl::parser(Box::new(PlainIter(it)) as Box<dyn Iterator<Item = String> + '_>),
        });
        ps.push(Some(p));
    }
    if src.borrow().pos != 0 {
        fail("eager", format!("creating a parser took {} strings from its source", src.borrow().pos));
    }
    let mut pos = 0usize; // the model's position
    let mut log: Vec<String> = Vec::new();
    let mut any = Fired::default();
    let describe = |step: &Step, src: &Src| {
        let s = src.borrow();
        let lo = s.pos.saturating_sub(6);
        format!("step {step:?} (source position {} of {}, recent items {:?})", s.pos, s.items.len(), &s.items[lo..s.pos.min(s.items.len())])
    };
    for step in steps {
        count(C::PSteps);
        cx.panicked.set(false);
        let start = src.borrow().pos;
        if start != pos {
            fail("eager", format!("source moved from {pos} to {start} between requests"));
        }
        // results the model expects, in order, and whether the step dies
        let mut want: Vec<Vec<String>> = Vec::new();
        let mut dies = false;
        let mut ended = false;
        let mut pull = |pos: &mut usize, want: &mut Vec<Vec<String>>| -> bool {
            match model_pull(items, pos, plain_src) {
                Pulled::End => {
                    ended = true;
                    false
                }
                Pulled::SrcPanic | Pulled::StrPanic => {
                    dies = true;
                    false
                }
                Pulled::One(a) => {
                    want.push(a);
                    true
                }
            }
        };
        let idx = |p: u8| p as usize % np;
        // an answer that varies can be an error or a card: follow what happened
        let is_err = |a: &Vec<String>| rm::parse(&a[0]).is_err();
        enum R {
            Opt(Option<Result<Card, ParseCardError>>),
            List(Vec<Result<Card, ParseCardError>>),
            N(usize),
            Coll(Result<Vec<Card>, ParseCardError>),
            Hint((usize, Option<usize>)),
            Nothing,
        }
        let before = pos;
        let res: Result<R, Fired> = match step {
            Step::Steal => {
                pull(&mut pos, &mut want);
                want.clear();
                let mut s = src.borrow_mut();
                if s.pos < s.items.len() {
                    s.pos += 1;
                }
                continue;
            }
            Step::Next(p) => {
                let Some(q) = ps[idx(*p)].as_mut() else { continue };
                pull(&mut pos, &mut want);
                settle("next", call(alloc, || R::Opt(q.next())), &cx)
            }
            Step::Nth(p, n) => {
                let Some(q) = ps[idx(*p)].as_mut() else { continue };
                for _ in 0..=*n {
                    if !pull(&mut pos, &mut want) {
                        break;
                    }
                }
                settle("nth", call(alloc, || R::Opt(q.nth(*n as usize))), &cx)
            }
            Step::Take(p, n) => {
                let Some(q) = ps[idx(*p)].as_mut() else { continue };
                for _ in 0..*n {
                    if !pull(&mut pos, &mut want) {
                        break;
                    }
                }
                settle("take and collect", call(alloc, || R::List(q.take_some(*n as usize))), &cx)
            }
            Step::FindErr(p) => {
                let Some(q) = ps[idx(*p)].as_mut() else { continue };
                while pull(&mut pos, &mut want) {
                    if is_err(want.last().unwrap()) {
                        break;
                    }
                }
                settle("find", call(alloc, || R::Opt(q.find_err())), &cx)
            }
            Step::SizeHint(p) => {
                let Some(q) = ps[idx(*p)].as_mut() else { continue };
                settle("size_hint", call(alloc, || R::Hint(q.size_hint())), &cx)
            }
            Step::End(p, how) => {
                let Some(q) = ps[idx(*p)].take() else { continue };
                match how % 8 {
                    7 => settle("drop", call(0, || { drop(q); R::Nothing }), &cx),
                    4..=6 => {
                        while pull(&mut pos, &mut want) {
                            if is_err(want.last().unwrap()) {
                                break;
                            }
                        }
                        settle(
                            "try_collect",
                            call(alloc, || {
                                R::Coll(match how % 8 {
                                    4 => q.try_collect(),
                                    5 => q.try_collect_box().map(|b| b.into_vec()),
                                    _ => q.collect_result(),
                                })
                            }),
                            &cx,
                        )
                    }
                    k => {
                        while pull(&mut pos, &mut want) {}
                        settle(
                            "consuming a parser",
                            call(alloc, || match k {
                                0 => R::List(q.fold()),
                                1 => R::N(q.count()),
                                2 => R::Opt(q.last()),
                                _ => R::List(q.collect_all()),
                            }),
                            &cx,
                        )
                    }
                }
            }
        };
        let at = src.borrow().pos;
        let bad = |why: &str, res: String| -> ! {
            fail("parser", format!("{}: {why}; got {res}; expected from {want:?}", describe(step, &src)))
        };
        match res {
            Err(f) => {
                // died of a fault: the source may not have been read beyond what the step asks
                any = f;
                any.leak = 0;
                if at > pos {
                    bad("took strings from the source beyond the request", "a fault".into());
                }
                pos = at;
                continue;
            }
            Ok(_) if dies => bad("a panic of the source did not reach the caller", "a result".into()),
            Ok(r) => {
                if at != pos {
                    bad(
                        if at > pos { "took strings from the source beyond the request" } else { "skipped strings it was asked for" },
                        format!("source position {at}, expected {pos} (from {before})"),
                    );
                }
                match r {
                    R::Nothing => {}
                    R::Hint((lo, hi)) => {
                        let mut p2 = pos;
                        let mut n = 0;
                        let mut exact = true;
                        loop {
                            match model_pull(items, &mut p2, plain_src) {
                                Pulled::One(_) => n += 1,
                                Pulled::End => break,
                                _ => {
                                    exact = false;
                                    break;
                                }
                            }
                        }
                        if exact && hint % 6 != 5 && (lo > n || hi.map_or(false, |h| h < n)) {
                            bad("size hint excludes the true size", format!("{lo} {hi:?}, true {n}"));
                        }
                    }
                    R::N(n) => {
                        if n != want.len() {
                            bad("wrong count", n.to_string());
                        }
                        log.push(format!("{n}"));
                    }
                    R::List(l) => {
                        if l.len() != want.len() || !l.iter().zip(&want).all(|(r, a)| one_ok(a, r)) {
                            bad("wrong results", format!("{l:?}"));
                        }
                        log.push(format!("{l:?}"));
                    }
                    R::Opt(r) => {
                        let one = match step {
                            Step::End(..) => want.last(),
                            Step::Nth(_, n) => want.get(*n as usize),
                            Step::FindErr(_) => want.last().filter(|a| is_err(a)),
                            _ => want.last(),
                        };
                        let ok = match (&r, one) {
                            (None, None) => true,
                            (Some(r), Some(a)) => one_ok(a, r),
                            _ => false,
                        };
                        if !ok {
                            bad("wrong result", format!("{r:?}"));
                        }
                        log.push(format!("{r:?}"));
                    }
                    R::Coll(c) => {
                        let err = want.last().filter(|a| is_err(a));
                        let ok = match (&c, err) {
                            (Ok(v), None) => {
                                v.len() == want.len()
                                    && v.iter().zip(&want).all(|(c, a)| one_ok(a, &Ok(*c)))
                            }
                            (Err(e), Some(a)) => one_ok(a, &Err(e.clone())),
                            _ => false,
                        };
                        if !ok {
                            bad("wrong collection", format!("{c:?}"));
                        }
                        log.push(format!("{c:?}"));
                    }
                }
            }
        }
    }
    drop(ps);
    record(path, 'P', || log.join("; "));
    any
}

// ------------------------------------------------------------------- printing

enum Shown {
    Card(Card),
    Rank(poker::Rank),
    Suit(poker::Suit),
    Class(EvalClass),
    Eval(Eval),
    P(ParseCardError),
    E(EvalError),
}
impl Shown {
    fn disp(&self) -> &dyn std::fmt::Display {
        match self {
            Shown::Card(x) => x,
            Shown::Rank(x) => x,
            Shown::Suit(x) => x,
            Shown::Class(x) => x,
            Shown::Eval(x) => x,
            Shown::P(x) => x,
            Shown::E(x) => x,
        }
    }
    fn dbg(&self) -> &dyn std::fmt::Debug {
        match self {
            Shown::Card(x) => x,
            Shown::Rank(x) => x,
            Shown::Suit(x) => x,
            Shown::Class(x) => x,
            Shown::Eval(x) => x,
            Shown::P(x) => x,
            Shown::E(x) => x,
        }
    }
}
/// What a printed text must be.
enum Want {
    Text(String),
    Dups(Hand),
    Any,
}
fn class_text(c: u8, a: u8, b: u8) -> (EvalClass, String) {
    let (a, b) = (a as usize % 13, b as usize % 13);
    let (ra, rb) = (rm::RANKS[a], rm::RANKS[b]);
    let k = (c as u32 % 9) << 20 | (a as u32) << 16 | (b as u32) << 12;
    let cl = match c % 9 {
        8 => EvalClass::StraightFlush { high_rank: ra },
        7 => EvalClass::FourOfAKind { quads: ra },
        6 => EvalClass::FullHouse { trips: ra, pair: rb },
        5 => EvalClass::Flush { high_rank: ra },
        4 => EvalClass::Straight { high_rank: ra },
        3 => EvalClass::ThreeOfAKind { trips: ra },
        2 => EvalClass::TwoPair { first_pair: ra, second_pair: rb },
        1 => EvalClass::Pair { pair: ra },
        _ => EvalClass::HighCard { high_rank: ra },
    };
    (cl, rm::name(k))
}
fn make_val(v: &Val) -> (Shown, Want) {
    match v {
        Val::Card(c) => {
            let c = c % 52;
            let t = format!("[ {}{} ]", rm::RANK_CH[c as usize / 4], rm::SUIT_PRETTY[c as usize % 4]);
            (Shown::Card(rm::card(c)), Want::Text(t))
        }
        Val::Rank(r) => {
            let r = *r as usize % 13;
            (Shown::Rank(rm::RANKS[r]), Want::Text(rm::RANK_CH[r].to_string()))
        }
        Val::Suit(s) => {
            let s = *s as usize % 4;
            (Shown::Suit(rm::SUITS[s]), Want::Text(rm::SUIT_PRETTY[s].to_string()))
        }
        Val::Class(c, a, b) => {
            let (c, t) = class_text(*c, *a, *b);
            (Shown::Class(c), Want::Text(t))
        }
        Val::Best => (Shown::Eval(Eval::BEST), Want::Text("Royal flush".into())),
        Val::Worst => (Shown::Eval(Eval::WORST), Want::Text("High card, seven".into())),
        Val::Eval(h) => {
            let ev = slot_ev(0);
            let c = rm::cards(h);
            let r = plain("evaluate", || cl::eval_slice(&ev, &c));
            check_eval(&ev, "evaluation", &[h], &r);
            drop_ev(ev);
            match r {
                Ok(e) => (Shown::Eval(e), Want::Text(rm::name(rm::strength(rm::mask(h))))),
                Err(e @ EvalError::InvalidHandSize(_)) => (Shown::E(e), Want::Text(rm::size_msg(h.len()))),
                Err(e) => (Shown::E(e), Want::Dups(h.clone())),
            }
        }
        Val::ParseErr(s) => match plain("parse", || cl::parse_str(s)) {
            Ok(c) => (Shown::Card(c), Want::Any),
            Err(e) => {
                if let Some(d) = perr_wrong(s, &Err(e.clone())) {
                    fail("misread", d);
                }
                let t = rm::parse_msg(s, &rm::parse(s).unwrap_err());
                (Shown::P(e), Want::Text(t))
            }
        },
        Val::CharsErr(a, b) => match plain("try_from_chars", || cl::parse_chars(*a, *b)) {
            Ok(c) => (Shown::Card(c), Want::Any),
            Err(e) => {
                let t = match (&e, rm::parse_chars(*a, *b)) {
                    (ParseCardError::InvalidRank { .. }, Err(m)) => rm::parse_msg(&a.to_string(), &m),
                    (ParseCardError::InvalidSuit { .. }, Err(m)) => rm::parse_msg(&b.to_string(), &m),
                    _ => String::new(),
                };
                (Shown::P(e), Want::Text(t))
            }
        },
        Val::DupErr(h) => (Shown::E(EvalError::CardsNotUnique(rm::cards(h))), Want::Dups(h.clone())),
        Val::FewErr(n) => (Shown::E(EvalError::InvalidHandSize(*n as usize)), Want::Text(rm::size_msg(*n as usize))),
    }
}
fn text_check(val: &Val, debug: bool, want: &Want, got: &str) {
    if !debug {
        let ok = match want {
            Want::Text(t) => got == t,
            Want::Dups(h) => rm::dup_msg_ok(got, h) || (!rm::has_dup(h) && got.starts_with(rm::DUP_MSG.trim_end())),
            Want::Any => true,
        };
        if !ok {
            let w = match want {
                Want::Text(t) => t.clone(),
                Want::Dups(h) => format!("{}(each repeated card of {} once)", rm::DUP_MSG, show_hand(h)),
                Want::Any => String::new(),
            };
            fail("wrong-text", format!("{val:?} printed as {got:?}, should be {w:?}"));
        }
    }
    if let (true, Val::Card(c)) = (debug, val) {
        let (r, s) = (rm::RANKS[*c as usize % 52 / 4], rm::SUITS[*c as usize % 4]);
        if !got.contains(&format!("{r:?}")) || !got.contains(&format!("{s:?}")) {
            fail("wrong-text", format!("the debug form of {}, {got:?}, does not name {r:?} and {s:?}", rm::text(*c % 52)));
        }
    }
    let key = format!("{debug}{val:?}");
    let x = w();
    match x.texts.get(&key) {
        None => {
            x.texts.insert(key, got.to_string());
        }
        Some(t) => {
            if t != got {
                fail("text-varies", format!("{val:?} printed as {t:?} and later as {got:?}"));
            }
        }
    }
}
fn run_fmt(val: &Val, debug: bool, torn: u32, hooks: &[Hk], alloc: u32, path: &str) -> Fired {
    let (s, want) = make_val(val);
    let cx = Cx::default();
    let h = H { hooks, cx: &cx, path };
    count(C::Fmts);
    // large enough not to grow inside the call
    let mut text = String::with_capacity(match val {
        Val::ParseErr(s) => 4096 + 12 * s.len(),
        Val::DupErr(h) | Val::Eval(h) => 4096 + 400 * h.len(),
        _ => 4096,
    });
    let mut hook = |n: u32| h.run(n);
    let mut sink = cl::SeamSink { text: &mut text, n: 0, hook: &mut hook, torn: torn as usize };
    let c = call(alloc, || if debug { cl::show_debug(s.dbg(), &mut sink) } else { cl::show(s.disp(), &mut sink) });
    let r = settle("formatting", c, &cx);
    let fired = match r {
        Ok(r) => {
            if cx.errored.get() {
                count(C::FailW);
                if r.is_ok() {
                    fail("write-failure-lost", format!("printing {val:?}: a write failed but the result is Ok; wrote {text:?}"));
                }
            } else if let Err(_) = r {
                fail("false-write-failure", format!("printing {val:?} failed although every write succeeded; wrote {text:?}"));
            }
            Fired { fault: cx.errored.get(), leak: 0 }
        }
        Err(f) => f,
    };
    // now to a healthy target, twice, by two routes
    let full = plain("formatting", || if debug { format!("{:?}", s.dbg()) } else { cl::to_string(s.disp()) });
    text_check(val, debug, &want, &full);
    if fired.fault {
        if !full.starts_with(text.as_str()) {
            fail("wrong-prefix", format!("printing {val:?} wrote {text:?} before the failure, which is not a prefix of {full:?}"));
        }
    } else if text != full {
        fail("text-varies", format!("{val:?} printed as {text:?} and then as {full:?}"));
    }
    record(path, 'F', || full.clone());
    if let Shown::Card(c) = &s {
        let t = plain("rank_suit_string", || cl::rank_suit_string(*c));
        if t != rm::text(rm::idx(*c)) {
            fail("wrong-text", format!("rank_suit_string gave {t:?} for {}", rm::text(rm::idx(*c))));
        }
    }
    match &s {
        Shown::Rank(r) => {
            let c = plain("as_char", || cl::rank_char(*r));
            if c.to_string() != full && !debug {
                fail("wrong-text", format!("the character of {r:?} is {c:?}"));
            }
        }
        Shown::Suit(s) => {
            let (c, p) = plain("as_char", || cl::suit_chars(*s));
            let i = rm::SUITS.iter().position(|k| k == s).unwrap();
            if (c, p) != (rm::SUIT_CH[i], rm::SUIT_PRETTY[i]) {
                fail("wrong-text", format!("the characters of {s:?} are {c:?} and {p:?}"));
            }
        }
        _ => {}
    }
    fired
}

// ------------------------------------------------------------------ showdowns

#[derive(Clone, Default)]
struct Obs {
    known: BTreeSet<u8>,
    // mode-specific running state
    best: Option<(Eval, BTreeSet<u8>)>,
    list: Vec<(Eval, u8)>,
    tree: BTreeMap<Eval, BTreeSet<u8>>,
    hash: HashMap<Eval, BTreeSet<u8>>,
    heap: BinaryHeap<(Eval, u8)>,
    fold_hi: Option<Eval>,
    fold_lo: Option<Eval>,
}
pub const MODES: u8 = 12;

fn add(o: &mut Obs, mode: u8, e: Eval, who: &BTreeSet<u8>) {
    o.known.extend(who.iter());
    let best = |o: &mut Obs, gt: bool, eq: bool, e: Eval| match (&mut o.best, gt, eq) {
        (None, ..) => o.best = Some((e, who.clone())),
        (b, true, _) => *b = Some((e, who.clone())),
        (Some((_, s)), _, true) => s.extend(who.iter()),
        _ => {}
    };
    let cur = o.best.as_ref().map(|b| b.0);
    match mode % MODES {
        0 => best(o, cur.map_or(false, |c| e > c), cur.map_or(false, |c| e == c), e),
        1 => best(o, cur.map_or(false, |c| e.is_better_than(c)), cur.map_or(false, |c| e.is_equal_to(c)), e),
        2 => {
            use std::cmp::Ordering::*;
            let x = cur.map(|c| c.cmp(&e));
            best(o, x == Some(Less), x == Some(Equal), e)
        }
        // losers
        3 => best(o, cur.map_or(false, |c| e < c), cur.map_or(false, |c| !(e != c)), e),
        4 => best(o, cur.map_or(false, |c| e.is_worse_than(c)), cur.map_or(false, |c| c >= e && c <= e), e),
        5 | 6 => o.list.extend(who.iter().map(|&p| (e, p))),
        7 => o.tree.entry(e).or_default().extend(who.iter()),
        8 => o.hash.entry(e).or_default().extend(who.iter()),
        9 => {
            for &p in who {
                o.heap.push((e, p));
            }
        }
        10 => {
            o.fold_hi = Some(o.fold_hi.unwrap_or(Eval::WORST).max(e));
            o.list.extend(who.iter().map(|&p| (e, p)));
        }
        _ => {
            o.fold_lo = Some(o.fold_lo.unwrap_or(Eval::BEST).min(e));
            o.list.extend(who.iter().map(|&p| (e, p)));
        }
    }
}
/// (players named by this observer, true = winners / false = losers)
fn outcome(o: &Obs, mode: u8) -> (BTreeSet<u8>, bool) {
    let m = mode % MODES;
    let pick = |e: Eval, v: &[(Eval, u8)]| v.iter().filter(|x| x.0 == e).map(|x| x.1).collect::<BTreeSet<u8>>();
    match m {
        0..=2 => (o.best.as_ref().map(|b| b.1.clone()).unwrap_or_default(), true),
        3 | 4 => (o.best.as_ref().map(|b| b.1.clone()).unwrap_or_default(), false),
        5 => {
            let mut v = o.list.clone();
            v.sort_by(|a, b| b.0.cmp(&a.0));
            (v.first().map(|f| v.iter().take_while(|x| x.0 == f.0).map(|x| x.1).collect()).unwrap_or_default(), true)
        }
        6 => {
            let mut v = o.list.clone();
            v.sort_unstable_by(|a, b| a.0.partial_cmp(&b.0).expect("partial_cmp is None"));
            (v.first().map(|f| v.iter().take_while(|x| x.0 == f.0).map(|x| x.1).collect()).unwrap_or_default(), false)
        }
        7 => (o.tree.iter().next_back().map(|x| x.1.clone()).unwrap_or_default(), true),
        8 => (o.hash.iter().max_by_key(|x| *x.0).map(|x| x.1.clone()).unwrap_or_default(), true),
        9 => {
            let mut h = o.heap.clone();
            let mut s = BTreeSet::new();
            if let Some((e, p)) = h.pop() {
                s.insert(p);
                while let Some((f, q)) = h.pop() {
                    if f != e {
                        break;
                    }
                    s.insert(q);
                }
            }
            (s, true)
        }
        10 => (o.fold_hi.map(|e| pick(e, &o.list)).unwrap_or_default(), true),
        _ => (o.fold_lo.map(|e| pick(e, &o.list)).unwrap_or_default(), false),
    }
}
fn merge(to: &mut Obs, from: &Obs, mode: u8, evals: &BTreeMap<u8, (Hand, Eval)>) {
    let m = mode % MODES;
    match m {
        0..=4 => {
            if let Some((e, s)) = &from.best {
                let known = from.known.clone();
                add(to, mode, *e, s);
                to.known.extend(known.iter());
            }
        }
        10 | 11 => {
            for p in &from.known {
                if let Some((_, e)) = evals.get(p) {
                    add(to, mode, *e, &BTreeSet::from([*p]));
                }
            }
            if let Some(e) = from.fold_hi {
                to.fold_hi = Some(e.max(to.fold_hi.unwrap_or(Eval::WORST)));
            }
            if let Some(e) = from.fold_lo {
                to.fold_lo = Some(e.min(to.fold_lo.unwrap_or(Eval::BEST)));
            }
        }
        _ => {
            for p in &from.known {
                if let Some((_, e)) = evals.get(p) {
                    add(to, mode, *e, &BTreeSet::from([*p]));
                }
            }
        }
    }
}
fn truth(known: &BTreeSet<u8>, win: bool) -> BTreeSet<u8> {
    let x = w();
    let ks: Vec<(Key, u8)> =
        known.iter().filter_map(|p| x.players.get(p).map(|(h, _)| (rm::strength(rm::mask(h)), *p))).collect();
    let t = if win { ks.iter().map(|k| k.0).max() } else { ks.iter().map(|k| k.0).min() };
    ks.iter().filter(|k| Some(k.0) == t).map(|k| k.1).collect()
}
fn run_net(modes: &[u8], events: &[Ev]) {
    let evals = w().players.clone();
    if evals.is_empty() || modes.is_empty() {
        return;
    }
    let ids: Vec<u8> = evals.keys().copied().collect();
    let n = modes.len();
    // observers only exchange partial outcomes with observers using the same method
    let mut obs: Vec<Obs> = modes.iter().map(|_| Obs::default()).collect();
    let body = || {
        for ev in events {
            match ev {
                Ev::Deliver(p, o) => {
                    count(C::Deliver);
                    let p = ids[*p as usize % ids.len()];
                    let o = *o as usize % n;
                    let e = evals[&p].1;
                    add(&mut obs[o], modes[o], e, &BTreeSet::from([p]));
                }
                Ev::Gossip(a, b) => {
                    let (a, b) = (*a as usize % n, *b as usize % n);
                    if a != b && modes[a] % MODES == modes[b] % MODES {
                        count(C::Gossip);
                        let f = obs[a].clone();
                        merge(&mut obs[b], &f, modes[b], &evals);
                    }
                }
                Ev::Restart(o) => {
                    count(C::Restart);
                    obs[*o as usize % n] = Obs::default();
                }
            }
        }
        obs
    };
    let obs = match catch_unwind(AssertUnwindSafe(body)) {
        Ok(o) => o,
        Err(p) => fail("panic", format!("merging results panicked: {}", panic_text(&p))),
    };
    for (o, &m) in obs.iter().zip(modes) {
        let (got, win) = outcome(o, m);
        let want = truth(&o.known, win);
        if got != want {
            let hands: Vec<String> = o
                .known
                .iter()
                .filter_map(|p| evals.get(p).map(|(h, e)| format!("player {p} {} {e:?}", show_hand(h))))
                .collect();
            fail(
                "wrong-showdown",
                format!(
                    "an observer (method {}) names {} {got:?}, should be {want:?}; it knows {}",
                    m % MODES,
                    if win { "winners" } else { "losers" },
                    hands.join(", ")
                ),
            );
        }
    }
}
fn hash_of<T: std::hash::Hash>(e: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
fn check_pair((ka, a, ha): (&Key, &Eval, &dyn Fn() -> String), (kb, b, hb): (&Key, &Eval, &dyn Fn() -> String)) {
    use std::cmp::Ordering::*;
    count(C::Pairs);
    let o = ka.cmp(kb);
    let bad = |what: &str| -> ! {
        fail("wrong-comparison", format!("{what}: {} {a:?} against {} {b:?} (truth {o:?})", ha(), hb()))
    };
    if a.cmp(b) != o { bad("cmp") }
    if a.partial_cmp(b) != Some(o) { bad("partial_cmp") }
    if (a > b) != (o == Greater) { bad(">") }
    if (a < b) != (o == Less) { bad("<") }
    if (a >= b) != (o != Less) { bad(">=") }
    if (a <= b) != (o != Greater) { bad("<=") }
    if (a == b) != (o == Equal) { bad("==") }
    if (a != b) != (o != Equal) { bad("!=") }
    if a.is_better_than(*b) != (o == Greater) { bad("is_better_than") }
    if a.is_worse_than(*b) != (o == Less) { bad("is_worse_than") }
    if a.is_equal_to(*b) != (o == Equal) { bad("is_equal_to") }
    if (*a).max(*b) != (if o == Less { *b } else { *a }) { bad("max") }
    if (*a).min(*b) != (if o == Greater { *b } else { *a }) { bad("min") }
    if o == Equal && hash_of(a) != hash_of(b) { bad("equal but hashed differently") }
    let (ca, cb) = (a.class(), b.class());
    let want = class_cmp(*ka, *kb);
    if ca.cmp(&cb) != want { bad("order of classes") }
    if ca.partial_cmp(&cb) != Some(want) { bad("partial order of classes") }
    if (ca == cb) != (want == Equal) { bad("equality of classes") }
    if want != Equal && want != o { bad("class order contradicts hand order") }
}
fn run_pairs() {
    let mut all: Vec<(Key, Eval, String)> = w()
        .players
        .values()
        .map(|(h, e)| (rm::strength(rm::mask(h)), *e, show_hand(h)))
        .collect();
    let l = ladder();
    all.push((*l.keys.last().unwrap(), Eval::BEST, "Eval::BEST".into()));
    all.push((l.keys[0], Eval::WORST, "Eval::WORST".into()));
    for (ka, a, ha) in &all {
        for (kb, b, hb) in &all {
            check_pair((ka, a, &|| ha.clone()), (kb, b, &|| hb.clone()));
        }
    }
    // the identities of the merge, over every result seen
    for (e, m) in w().seen.iter().flatten() {
        let h = show_hand(&rm::unmask(*m));
        if *e > Eval::BEST || Eval::BEST.is_worse_than(*e) || Eval::BEST.max(*e) != Eval::BEST || Eval::BEST.min(*e) != *e {
            fail("not-best", format!("{h} {e:?} beats Eval::BEST"));
        }
        if *e < Eval::WORST || Eval::WORST.is_better_than(*e) || Eval::WORST.min(*e) != Eval::WORST || Eval::WORST.max(*e) != *e {
            fail("not-worst", format!("{h} {e:?} loses to Eval::WORST"));
        }
    }
}
fn check_chars(a: char, b: char) {
    let r = plain("try_from_chars", || cl::parse_chars(a, b));
    let good = match (rm::parse_chars(a, b), &r) {
        (Ok(c), Ok(k)) => rm::card(c) == *k,
        (Err(rm::PErr::Rank(c)), Err(ParseCardError::InvalidRank { incorrect_char, .. })) => c == *incorrect_char,
        (Err(rm::PErr::Suit(c)), Err(ParseCardError::InvalidSuit { incorrect_char, .. })) => c == *incorrect_char,
        _ => false,
    };
    if !good {
        fail("misread", format!("characters {a:?} {b:?} gave {r:?}"));
    }
    for c in [a, b] {
        let (x, y) = plain("try_from", || cl::from_char(c));
        let rank = rm::RANK_CH.iter().position(|&k| k == c).map(|i| rm::RANKS[i]).ok_or(c);
        let suit = rm::SUIT_CH.iter().position(|&k| k == c).map(|i| rm::SUITS[i]).ok_or(c);
        if x != rank || y != suit {
            fail("misread", format!("character {c:?} alone gave {x:?} and {y:?}, should be {rank:?} and {suit:?}"));
        }
    }
}
/// The process forks; parent and children go on dealing, one after the other.
fn run_fork(before: u32, kids: u32, n: u32) {
    let deal = || deck_check("shuffled deck", &plain("shuffled", cl::shuffled));
    let mut all: Vec<(String, Vec<u8>)> = (0..before).map(|i| (format!("deck {i} before the fork"), deal())).collect();
    for k in 1..=kids {
        count(C::Forks);
        let mut fd = [0i32; 2];
        unsafe {
            if libc::pipe(fd.as_mut_ptr()) != 0 {
                finish(3, "no pipe");
            }
            let pid = libc::fork();
            if pid < 0 {
                finish(3, "fork failed");
            }
            if pid == 0 {
                libc::alarm(60);
                rt::forked(k);
                for _ in 0..n {
                    let d = deal();
                    if libc::write(fd[1], d.as_ptr() as *const libc::c_void, 52) != 52 {
                        finish(3, "a pipe refused a deck");
                    }
                }
                libc_exit(0);
            }
            libc::close(fd[1]);
            for i in 0..n {
                let mut d = vec![0u8; 52];
                let mut at = 0;
                while at < 52 {
                    let m = libc::read(fd[0], d[at..].as_mut_ptr() as *mut libc::c_void, 52 - at);
                    if m <= 0 {
                        break;
                    }
                    at += m as usize;
                }
                if at < 52 {
                    break;
                }
                all.push((format!("deck {i} of child {k}"), d));
            }
            libc::close(fd[0]);
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {}
            if out().status != 0 {
                libc_exit(0); // the child's verdict
            }
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
                libc_exit(libc::WEXITSTATUS(st));
            }
            if libc::WIFSIGNALED(st) {
                fail("crash", format!("shuffling in a forked process ended it with signal {}", libc::WTERMSIG(st)));
            }
        }
    }
    for i in 0..n {
        all.push((format!("deck {i} of the parent"), deal()));
    }
    for (i, (na, a)) in all.iter().enumerate() {
        for (nb, b) in &all[i + 1..] {
            if let Some(d) = related(a, b) {
                fail("related-decks", format!("after a fork, {na} and {nb} {d}: {} / {}", rm::texts(a), rm::texts(b)));
            }
        }
    }
}
/// The cases numbered `at` to `at + n` of a numbered whole.
fn run_sweep(slot: u8, kind: u8, at: u64, n: u32) {
    count_n(C::Swept, n as u64);
    match kind {
        0 => {
            let ev = slot_ev(slot);
            let mut h = crate::handgen::five_at(at);
            let mut r = Rng::new(at, 0x53EE, 0);
            for i in 0..n {
                let mut s = h.to_vec();
                r.shuffle(&mut s);
                bulk_eval(&ev, &s, if i % 16 == 0 { r.below(14) as u8 } else { 0 });
                crate::handgen::five_after(&mut h);
            }
            drop_ev(ev);
        }
        1 => {
            for i in 0..n as u64 {
                let Some(c) = char::from_u32(((at + i) % 0x110000) as u32) else { continue };
                let (a, b) = (rm::RANK_CH[(at + i) as usize % 13], rm::SUIT_CH[(at + i) as usize % 4]);
                check_chars(c, b);
                check_chars(a, c);
                for t in [format!("{c}{b}"), format!("{a}{c}"), match i % 4 {
                    0 => format!("{c}"),
                    1 => format!("{a}{b}{c}"),
                    2 => format!("{c}{a}{b}"),
                    _ => format!("{c}{c}"),
                }] {
                    let r = plain("parsing a token", || cl::parse_str(&t));
                    if let Some(d) = perr_wrong(&t, &r) {
                        fail("misread", d);
                    }
                    if let (Err(e), 0) = (&r, (at + i) % 8) {
                        perr_msg_check(&t, e);
                    }
                }
                // it separates tokens if it is white space, and is a part of one otherwise
                let t = format!("{a}{b}{c}{a}{b}");
                let r = plain("parsing a text", || cl::parse_text_all(&t));
                let toks: Vec<&str> = t.split_whitespace().collect();
                if r.len() != toks.len() {
                    fail("wrong-count", format!("{t:?}: {} results for {} tokens", r.len(), toks.len()));
                }
                for (t, r) in toks.iter().zip(&r) {
                    if let Some(d) = perr_wrong(t, r) {
                        fail("misread", d);
                    }
                }
            }
        }
        _ => {
            let ev = slot_ev(slot);
            let l = ladder();
            let all: Vec<Eval> = (0..rm::CLASSES)
                .filter_map(|i| {
                    let h = &l.hands[i];
                    let r = plain("evaluate", || cl::eval_slice(&ev, &rm::cards(h)));
                    check_eval(&ev, "evaluation", &[&h.to_vec()], &r);
                    r.ok()
                })
                .collect();
            drop_ev(ev);
            for d in 0..n as u64 {
                let d = (at + d) as usize % rm::CLASSES;
                for i in 0..all.len() {
                    let k = (i + d) % rm::CLASSES;
                    check_pair((&l.keys[i], &all[i], &|| show_hand(&l.hands[i])), (&l.keys[k], &all[k], &|| show_hand(&l.hands[k])));
                }
            }
        }
    }
}
/// Classes compare by category, then by the ranks the class names.
fn class_cmp(a: Key, b: Key) -> std::cmp::Ordering {
    let named = |k: Key| {
        let n = match rm::cat(k) {
            6 | 2 => 2,
            _ => 1,
        };
        k >> (20 - 4 * n)
    };
    (rm::cat(a), if rm::cat(a) == rm::cat(b) { named(a) } else { 0 })
        .cmp(&(rm::cat(b), if rm::cat(a) == rm::cat(b) { named(b) } else { 0 }))
}

// ----------------------------------------------------------------- operations

/// Same operation without its faults.
fn healthy(op: &Op) -> Op {
    let keep = |h: &[Hk]| h.iter().filter(|k| !matches!(k.act, Act::Panic | Act::Err)).cloned().collect::<Vec<_>>();
    match op.clone() {
        Op::New { slot, default, .. } => Op::New { slot, default, alloc: 0 },
        Op::Clone { from, to, into, .. } => Op::Clone { from, to, into, alloc: 0 },
        Op::Eval { slot, views, how, seam, hooks, .. } => {
            Op::Eval { slot, views, how, seam, hooks: keep(&hooks), alloc: 0 }
        }
        Op::Generate { take, how, .. } => Op::Generate { take, how, alloc: 0 },
        Op::GenPair { pattern, hooks } => Op::GenPair { pattern, hooks: keep(&hooks) },
        Op::Shuffled { keep, .. } => Op::Shuffled { alloc: 0, keep },
        Op::ShuffleWith { rng, how, hooks, keep: k, .. } => {
            Op::ShuffleWith { rng, how, hooks: keep(&hooks), alloc: 0, keep: k }
        }
        Op::Parse { items, kind, hint, parsers, steps, hooks, .. } => {
            Op::Parse { items, kind, hint, parsers, steps, hooks: keep(&hooks), alloc: 0 }
        }
        Op::Fmt { val, debug, torn, hooks, .. } => Op::Fmt { val, debug, torn, hooks: keep(&hooks), alloc: 0 },
        Op::Make { cards, way, .. } => Op::Make { cards, way, alloc: 0 },
        Op::Order { cards, how, hooks } => Op::Order { cards, how, hooks: keep(&hooks) },
        o => o,
    }
}

// ------------------------------------------------------------ long-running use

const KINDS: [&str; cl::SOAKS as usize] = [
    "evaluations", "refused hands", "tokens", "lists of tokens", "given shuffles", "built-in shuffles", "printed results",
    "evaluators made and dropped", "sorted hands", "calls cut short", "generated decks", "evaluators made one at a time",
    "calls of every kind",
];
const AGAIN: [&str; cl::AGAINS as usize] = [
    "evaluating five cards", "evaluating a hand", "refusing a repeated card", "refusing too few cards", "parsing a card",
    "refusing a token", "shuffling with the same stream", "shuffling", "printing", "cloning and dropping an evaluator",
    "generating a deck", "parsing one long stream", "sorting and comparing", "building a card", "parsing a list",
    "a container that panics", "a target that fails", "shuffling with and without a given stream",
];
/// Bytes that may be kept after the first calls have been made.
const KEPT: i64 = 16 << 10;
fn run_soak(slot: u8, kind: u8, seed: u64, n: u32, threads: u32) {
    let alone = kind % cl::SOAKS == cl::ALONE;
    let ev = (!alone).then(|| slot_ev(slot));
    let what = KINDS[(kind % cl::SOAKS) as usize];
    let go = |s: u64, n: u32, threads: u32| {
        count_n(C::Soaked, n as u64 * threads.max(1) as u64);
        let all = rt::heap_all();
        let work = rt::work();
        let c = call(0, || if threads == 0 { cl::soak(ev.as_deref(), kind, s, n) } else { cl::churn(ev.as_deref(), kind, s, n, threads) });
        let work = rt::work() - work;
        let net = if threads == 0 { c.net } else { rt::heap_all() - all };
        let sum = settle(what, c, &Cx::default()).unwrap_or(0);
        if kind % cl::SOAKS != 5 && kind % cl::SOAKS != cl::SOAKS - 1 {
            rt::log(sum);
        }
        (net, work)
    };
    let few = n.min(60);
    go(seed, few, threads);
    go(seed ^ 1, (n / 4).max(few), threads);
    let (_, base) = go(seed, few, threads);
    let mut kept = 0;
    let mut calls = 0;
    for i in 0..3 {
        kept += go(seed ^ (2 + i), n, threads).0;
        calls += n * threads.max(1);
    }
    let (net, late) = go(seed, few, threads);
    kept += net;
    if let Some(ev) = ev {
        drop_ev(ev);
    }
    // evaluators that are dropped and threads that have ended leave nothing behind
    let kept_limit = match (threads, kind % cl::SOAKS) {
        (0, 7 | cl::ALONE) => 1024,
        (0, _) => KEPT,
        _ => 64 * (4 * threads) as i64,
    };
    if kept > kept_limit {
        fail("memory-grows", format!("{what}: {kept} bytes more are kept after {calls} calls whose results were given up"));
    }
    let entropy = matches!(kind % cl::SOAKS, 5 | 12); // interrupted system calls are tried again
    let limit = if entropy { 3 * base + 20_000 } else { base + base / 2 + 5000 };
    if threads == 0 && late > limit {
        fail("work-grows", format!("{what}: the same {few} calls took {base} memory accesses at first and {late} after {calls} other calls"));
    }
}

// --------------------------------------------------------- cards and their order

const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
fn encoding(c: u8) -> i32 {
    let (r, s) = ((c / 4) as usize, c % 4);
    let flag = [8, 4, 2, 1][s as usize];
    1 << (16 + r) | flag << 12 | (r as i32) << 8 | PRIMES[r]
}
fn run_make(cards: &[u8], way: u8, alloc: u32, path: &str) -> Fired {
    count(C::Made);
    let ranks: Vec<_> = cards.iter().map(|&c| rm::RANKS[(c / 4) as usize]).collect();
    let suits: Vec<_> = cards.iter().map(|&c| rm::SUITS[(c % 4) as usize]).collect();
    let text: Vec<String> = cards.iter().map(|&c| rm::text(c)).collect();
    let got = match settle("building cards", call(alloc, || cl::make(way, cards, &ranks, &suits, &text)), &Cx::default()) {
        Ok(g) => g,
        Err(f) => return f,
    };
    if got.len() != cards.len() {
        fail("wrong-cards", format!("{} cards built in way {way} from {}", got.len(), show_hand(cards)));
    }
    for (i, (&c, k)) in cards.iter().zip(&got).enumerate() {
        let t = || format!("{} built in way {way} (place {i} of {})", rm::text(c), show_hand(cards));
        let (n, r, s) = (k.unique_integer(), k.rank(), k.suit());
        if n != encoding(c) || cl::INTEGERS[c as usize] != n {
            fail("wrong-encoding", format!("{}: {n:#034b}, should be {:#034b}", t(), encoding(c)));
        }
        if r != ranks[i] || s != suits[i] {
            fail("wrong-cards", format!("{}: reads as {r:?} of {s:?}", t()));
        }
        if k.rank_suit_string() != text[i] {
            fail("wrong-cards", format!("{}: calls itself {}", t(), k.rank_suit_string()));
        }
        let first = *w().made[c as usize].get_or_insert(*k);
        if first != *k || !(first == *k) || hash_of(&first) != hash_of(k) {
            fail("wrong-cards", format!("{}: differs from the same card built before", t()));
        }
        for (d, o) in w().made.iter().enumerate() {
            if let Some(o) = o {
                if (*o == *k) != (d == c as usize) || (*o != *k) == (d == c as usize) {
                    fail("wrong-cards", format!("{}: equality with {} is wrong", t(), rm::text(d as u8)));
                }
            }
        }
    }
    rt::log(got.len() as u64);
    record(path, 'K', || format!("{got:?}"));
    Fired::default()
}

fn run_order(cards: &[u8], how: u8, hooks: &[Hk], path: &str) -> Fired {
    use std::cmp::Ordering;
    count(C::Ordered);
    let ok = Fired::default();
    let cx = Cx::default();
    let h = H { hooks, cx: &cx, path };
    let v = rm::cards(cards);
    let rank = |c: &Card| rm::idx(*c) / 4;
    match how % (cl::SORTS + 3) {
        k if k < cl::SORTS => {
            let mut s = v.clone();
            if let Err(f) = settle("sorting cards", call(0, || cl::sort(k, &mut s, &h)), &cx) {
                return Fired { fault: f.fault, leak: 0 };
            }
            let mut want = cards.to_vec();
            want.sort_by_key(|c| c / 4);
            let mut got: Vec<u8> = s.iter().map(|c| rm::idx(*c)).collect();
            rt::log_str(&rm::texts(&got));
            let shown = show_hand(&got);
            if !cl::STABLE[k as usize] {
                // within one rank any order will do
                got.sort_by_key(|c| c % 4);
                want.sort_by_key(|c| c % 4);
                let asc = s.windows(2).all(|p| rank(&p[0]) <= rank(&p[1]));
                got.sort_by_key(|c| c / 4);
                want.sort_by_key(|c| c / 4);
                if !asc {
                    fail("wrong-order", format!("{} sorted in way {k} gave {shown}", show_hand(cards)));
                }
            }
            if got != want {
                fail("wrong-order", format!("{} sorted in way {k} gave {shown}", show_hand(cards)));
            }
        }
        k if k == cl::SORTS => {
            for (a, b) in v.iter().flat_map(|a| v.iter().map(move |b| (*a, *b))) {
                let (f, o, p, mx, mn) = plain("comparing cards", || cl::operators(a, b));
                let (x, y) = (rank(&a), rank(&b));
                let w = x.cmp(&y);
                let same = rm::idx(a) == rm::idx(b);
                let t = || format!("{} and {}", a.rank_suit_string(), b.rank_suit_string());
                if f != [x < y, x <= y, x > y, x >= y, same, !same] || o != w || p != Some(w) {
                    fail("wrong-order", format!("{}: < <= > >= == != give {f:?}, cmp {o:?}, partial_cmp {p:?}", t()));
                }
                // of two of one rank the later is the greater
                let (up, down) = if x > y { (a, b) } else { (b, a) };
                if mx != up || mn != down {
                    fail("wrong-order", format!("{}: max {mx:?}, min {mn:?}", t()));
                }
                let (ra, rb) = (a.rank(), b.rank());
                let (f, o, p) = plain("comparing ranks", || cl::rank_operators(ra, rb));
                if f != [x < y, x <= y, x > y, x >= y, x == y, x != y] || o != w || p != Some(w) {
                    fail("wrong-order", format!("ranks of {}: < <= > >= == != give {f:?}, cmp {o:?}, partial_cmp {p:?}", t()));
                }
            }
        }
        k if k == cl::SORTS + 1 => {
            let (mx, mn) = plain("extremes of cards", || cl::extremes(&v));
            if mx != v.iter().copied().max_by_key(&rank) || mn != v.iter().copied().min_by_key(&rank) {
                fail("wrong-order", format!("{}: greatest {mx:?}, least {mn:?}", show_hand(cards)));
            }
            if v.len() >= 3 {
                let (lo, hi) = if rank(&v[1]) <= rank(&v[2]) { (v[1], v[2]) } else { (v[2], v[1]) };
                let g = plain("clamping a card", || cl::clamp(v[0], lo, hi));
                let r = rank(&v[0]);
                if g != if r < rank(&lo) { lo } else if r > rank(&hi) { hi } else { v[0] } {
                    fail("wrong-order", format!("{:?} clamped between {lo:?} and {hi:?} gave {g:?}", v[0]));
                }
            }
        }
        _ => {
            let (a, b) = v.split_at(v.len() / 2);
            let key = |x: &[Card]| x.iter().map(|c| rank(c)).collect::<Vec<u8>>();
            let (o, p) = plain("comparing lists of cards", || cl::lexical(a, b));
            let want = key(a).cmp(&key(b));
            if o != want {
                fail("wrong-order", format!("lists {a:?} and {b:?}: cmp {o:?}"));
            }
            // partial_cmp of lists follows partial_cmp of cards
            if p != Some(want) {
                fail("wrong-order", format!("lists {a:?} and {b:?}: partial_cmp {p:?}"));
            }
            let _: Ordering = o;
        }
    }
    ok
}

pub fn run_op(op: &Op, path: &str) {
    let x = w();
    x.depth += 1;
    count(C::Ops);
    rt::log(mix64(path.len() as u64));
    let f = exec_op(op, path);
    if f.fault {
        count(C::Retries);
        // the same fault again and again must not accumulate memory
        if f.leak > 0 {
            let mut leaks = 1;
            for _ in 0..3 {
                let g = exec_op(op, path);
                if g.fault && g.leak > 0 {
                    leaks += 1;
                }
            }
            if leaks == 4 {
                fail("leak", format!("{} bytes stay allocated after each interrupted call of {op:?}", f.leak));
            }
        }
        let g = exec_op(&healthy(op), path);
        if g.fault {
            fail("harness", "healthy retry reported a fault");
        }
    }
    rt::log(w().counters[C::Evals as usize] ^ w().counters[C::Draws as usize] << 20);
    w().depth -= 1;
    op_finished();
}

fn exec_op(op: &Op, path: &str) -> Fired {
    let ok = Fired::default();
    match op {
        Op::New { slot, default, alloc } => {
            count(C::News);
            let r = settle(
                if *default { "Evaluator::default" } else { "Evaluator::new" },
                call(*alloc, if *default { cl::ev_default } else { cl::ev_new }),
                &Cx::default(),
            );
            match r {
                Ok(e) => {
                    put_ev(*slot, Arc::new(e));
                    probe(*slot);
                    ok
                }
                Err(f) => f,
            }
        }
        Op::Static { slot } => {
            put_ev(*slot, Arc::new(cl::ev_downloaded()));
            if w().table.is_none() {
                w().table = Some(Arc::new(plain("Evaluator::new", cl::ev_new)));
            }
            ok
        }
        Op::Clone { from, to, into, alloc } => {
            count(C::Clones);
            let src = slot_ev(*from);
            let r = if *into {
                // clone_from into an evaluator of our own
                let mut target = plain("Evaluator::new", cl::ev_new);
                settle(
                    "clone_from",
                    call(*alloc, || {
                        cl::ev_clone_from(&mut target, &src);
                        target
                    }),
                    &Cx::default(),
                )
            } else {
                settle("clone", call(*alloc, || cl::ev_clone(&src)), &Cx::default())
            };
            drop_ev(src);
            match r {
                Ok(e) => {
                    put_ev(*to, Arc::new(e));
                    probe(*to);
                    ok
                }
                Err(f) => Fired { fault: f.fault, leak: if *into { 0 } else { f.leak } },
            }
        }
        Op::Drop { slot } => {
            if let Some(e) = w().evs[*slot as usize % SLOTS].take() {
                drop_ev(e);
            }
            ok
        }
        Op::Move { from, to } => {
            count(C::Moves);
            if let Some(e) = w().evs[*from as usize % SLOTS].take() {
                match Arc::try_unwrap(e) {
                    Ok(ev) => {
                        let boxed = Box::new(ev);
                        put_ev(*to, Arc::new(*boxed));
                    }
                    Err(e) => put_ev(*to, e),
                }
                probe(*to);
            }
            ok
        }
        Op::Cmp { a, b } => {
            count(C::Cmps);
            let (x, y) = (slot_ev(*a), slot_ev(*b));
            let eq = plain("comparing evaluators", || cl::ev_eq(&x, &y));
            let ne = plain("comparing evaluators", || cl::ev_ne(&x, &y));
            drop_ev(x);
            drop_ev(y);
            if !eq || ne {
                fail("evaluators-differ", format!("evaluators in slots {a} and {b} compare unequal (== {eq}, != {ne})"));
            }
            ok
        }
        Op::Eval { slot, views, how, seam, hooks, alloc } => {
            let ev = slot_ev(*slot);
            let cx = Cx::default();
            let vs: Vec<Vec<Card>> = views.iter().map(|v| rm::cards(v)).collect();
            let calls = Cell::new(0u32);
            let h = H { hooks, cx: &cx, path };
            if views.is_empty() {
                return ok;
            }
            let r = if *seam {
                let s = cl::SeamHand { views: &vs, calls: &calls, hook: &h };
                if views.len() > 1 {
                    count(C::Varying);
                }
                settle(
                    "evaluate",
                    call(*alloc, || if how % 2 == 0 { cl::eval_seam(&ev, s) } else { cl::eval_seam_ref(&ev, &s) }),
                    &cx,
                )
            } else {
                settle("evaluate", call(*alloc, || cl::eval_in(&ev, *how, &vs[0])), &cx)
            };
            let f = match r {
                Ok(r) => {
                    let shown: Vec<&Hand> = if *seam {
                        let n = (calls.get() as usize).clamp(1, views.len());
                        views[..n].iter().collect()
                    } else {
                        vec![&views[0]]
                    };
                    check_eval(&ev, "evaluation", &shown, &r);
                    rt::log(r.is_ok() as u64);
                    record(path, 'E', || format!("{r:?}"));
                    ok
                }
                Err(f) => f,
            };
            drop_ev(ev);
            f
        }
        Op::Batch { slot, seed, n, kind } => {
            let ev = slot_ev(*slot);
            let mut g = HandGen::new(*seed, *kind);
            for _ in 0..*n {
                let (h, how) = g.next(ladder());
                bulk_eval(&ev, &h, how);
            }
            drop_ev(ev);
            ok
        }
        Op::Again { slot, kind, seed, n } => {
            let ev = slot_ev(*slot);
            let mut r = crate::rng::Rng::new(*seed, 0xA6A1, *kind as u64);
            let h = crate::handgen::random_hand(&mut r, 5 + (*seed % 3) as usize);
            let cards = rm::cards(&h);
            let bad = ["", "x", "Ax", "1s", "AsAs", "\u{2660}A", "aS", "10s"][(*seed >> 8) as usize % 8];
            count_n(C::Again, *n as u64);
            let k = *kind % cl::AGAINS;
            let c = call(0, || cl::repeat(&ev, k, &cards, bad, *seed, *n));
            if let Ok(Some(i)) = settle(AGAIN[k as usize], c, &Cx::default()) {
                fail("wears-out", format!("{}: call {i} of {n} equal ones has another outcome than the first", AGAIN[k as usize]));
            }
            drop_ev(ev);
            ok
        }
        Op::Hoard { slot, seed, n } => {
            let ev = slot_ev(*slot);
            let h = crate::handgen::random_hand(&mut crate::rng::Rng::new(*seed, 0xA6A2, 0), 5 + (*seed % 3) as usize);
            let cards = rm::cards(&h);
            count_n(C::Hoarded, *n as u64);
            if let Ok(Err(e)) = settle("evaluators alive together", call(0, || cl::hoard(&ev, *n, *seed, &cards)), &Cx::default()) {
                fail("not-interchangeable", e);
            }
            drop_ev(ev);
            ok
        }
        Op::Sweep { slot, kind, at, n } => {
            run_sweep(*slot, *kind, *at, *n);
            ok
        }
        Op::Fork { before, kids, n } => {
            run_fork(*before, *kids, *n);
            ok
        }
        Op::Soak { slot, kind, seed, n } => {
            run_soak(*slot, *kind, *seed, *n, 0);
            ok
        }
        Op::Churn { slot, kind, seed, n, threads } => {
            run_soak(*slot, *kind, *seed, *n, (*threads).clamp(1, 8));
            ok
        }
        Op::Ladder { slot } => {
            let ev = slot_ev(*slot);
            run_ladder(&ev, "evaluation");
            drop_ev(ev);
            ok
        }
        Op::Generate { take, how, alloc } => {
            count(C::Gens);
            let t = *take as usize;
            let c = call(*alloc, || if t >= 52 { cl::generate_via(*how) } else { cl::generate(t) });
            match settle("generate", c, &Cx::default()) {
                Ok(d) => {
                    if t >= 52 {
                        let v = deck_check("generated deck", &d);
                        gen_order_check("generate", &v);
                        record(path, 'G', || rm::texts(&v));
                    } else {
                        let v: Vec<u8> = d.iter().map(|&c| rm::idx(c)).collect();
                        if v.len() != t || rm::has_dup(&v) {
                            fail("bad-deck", format!("{t} cards asked of a generated deck gave {}", show_hand(&v)));
                        }
                        gen_order_check("generate", &v);
                    }
                    ok
                }
                Err(f) => f,
            }
        }
        Op::RealRng { seed, skip } => {
            match settle("shuffled_with", call(0, || cl::real_forms(*seed, *skip % 70)), &Cx::default()) {
                Ok(f) => {
                    count_n(C::ShufWith, 4);
                    let v = deck_check("deck shuffled with a standard generator", &f[0].0);
                    for (k, name) in [(1, "behind a trait object"), (2, "in a box"), (3, "inside a larger value")] {
                        let o = deck_check("deck shuffled with a standard generator", &f[k].0);
                        if o != v {
                            fail(
                                "not-replayable",
                                format!("a standard generator (seed {seed}, {skip} words used) gave {}, and {name} {}", rm::texts(&v), rm::texts(&o)),
                            );
                        }
                        if f[k].1 != f[0].1 {
                            fail("stream-position", format!("a standard generator (seed {seed}, {skip} words used) was left elsewhere {name}"));
                        }
                    }
                    record(path, 'R', || rm::texts(&v));
                    ok
                }
                Err(f) => f,
            }
        }
        Op::GenPair { pattern, hooks } => {
            count_n(C::Gens, 2);
            let cx = Cx::default();
            let h = H { hooks, cx: &cx, path };
            match settle("generate", call(0, || cl::generate_pair(*pattern, &h)), &cx) {
                Ok((a, b)) => {
                    let va = deck_check("first of two interleaved generated decks", &a);
                    let vb = deck_check("second of two interleaved generated decks", &b);
                    gen_order_check("generate", &va);
                    gen_order_check("generate", &vb);
                    ok
                }
                Err(f) => f,
            }
        }
        Op::Shuffled { alloc, keep } => {
            let cx = Cx::default();
            let c = call(*alloc, cl::shuffled);
            let hard = rt::stat(rt::K_ENT_HARD) > 0;
            if let (Got::Panic(_), true) = (&c.got, w().hard_entropy && hard) {
                // no entropy to be had: failing is right
                count(C::EntFail);
                record(path, 'S', || "failed".into());
                return ok;
            }
            match settle("shuffled", c, &cx) {
                Ok(d) => {
                    count(C::ShufOs);
                    let v = deck_check("shuffled deck", &d);
                    if rt::stat(rt::K_ENT_BYTES) < 29 {
                        fail(
                            "no-entropy",
                            format!(
                                "a deck was dealt after only {} bytes of entropy: {}",
                                rt::stat(rt::K_ENT_BYTES),
                                rm::texts(&v)
                            ),
                        );
                    }
                    for o in &w().os_decks {
                        if let Some(d) = related(o, &v) {
                            fail("related-decks", format!("two decks of one run {d}: {} / {}", rm::texts(o), rm::texts(&v)));
                        }
                    }
                    if let Some(g) = w().gen_order.clone() {
                        if let Some(d) = related(&g, &v) {
                            fail("related-decks", format!("a shuffled deck and the unshuffled order {d}: {}", rm::texts(&v)));
                        }
                    }
                    record(path, 'S', || rm::texts(&v));
                    w().os_decks.push(v);
                    w().n_os += 1;
                    if *keep > 0 {
                        keep_deck(*keep, d);
                    }
                    ok
                }
                Err(f) => f,
            }
        }
        Op::ShuffleWith { rng, how, hooks, alloc, keep } => {
            let cx = Cx::default();
            let h = H { hooks, cx: &cx, path };
            let mut st = Stream::new(rng);
            let mut over = false;
            let mut ndraw = 0u32;
            let (got, n, bytes) = {
                let mut draw = |n: u32| -> u64 {
                    ndraw = n;
                    h.run(n);
                    let v = st.next();
                    if st.after > DRAW_BOUND {
                        over = true;
                        cx.panicked.set(true);
                        panic_any(Injected)
                    }
                    v
                };
                let mut r = cl::SeamRng { draw: &mut draw, n: 0, bytes: 0 };
                let c = call(*alloc, || match how % 6 {
                    0 => cl::shuffled_with(&mut r),
                    1 => cl::shuffled_with_dyn(&mut r),
                    2 => cl::shuffled_with_refref(&mut r),
                    3 => cl::shuffled_with_box(&mut r),
                    4 => cl::shuffled_with_wide(&mut r),
                    _ => cl::shuffled_with_handle(&mut r),
                });
                (c, r.n, r.bytes)
            };
            count_n(C::Draws, n as u64);
            count_n(C::Hostile, st.hostile);
            if over {
                fail("endless-shuffle", format!("a shuffle went on after {DRAW_BOUND} draws from a healthy source"));
            }
            match settle("shuffled_with", got, &cx) {
                Ok(d) => {
                    count(C::ShufWith);
                    let v = deck_check("deck shuffled with a given source", &d);
                    let key = serde_json::to_string(rng).unwrap();
                    let x = w();
                    match x.streams.get(&key) {
                        None => {
                            if rng.segs.is_empty() {
                                for (k2, (o, _, _, p2)) in &x.streams {
                                    if !k2.contains("\"segs\":[]") {
                                        continue;
                                    }
                                    if let Some(d) = related(o, &v) {
                                        fail(
                                            "related-decks",
                                            format!("decks of different streams ({key} at {path}, {k2} at {p2}) {d}: {}", rm::texts(&v)),
                                        );
                                    }
                                }
                            }
                            // the same start, then another healthy source
                            if let [(SegKind::Same(s, 0), k)] = rng.segs[..] {
                                for (k2, (o, n2, _, p2)) in &x.streams {
                                    let r2: RngSpec = match k2.contains("Same") {
                                        true => serde_json::from_str(k2).unwrap(),
                                        false => continue,
                                    };
                                    if let [(SegKind::Same(s2, 0), m)] = r2.segs[..] {
                                        let most = k.min(m);
                                        if s == s2 && rng.seed != r2.seed && *o == v && n.min(*n2) > most + 20 {
                                            fail(
                                                "collapsed-streams",
                                                format!("streams that part after {most} draws ({key} at {path}, {k2} at {p2}) gave one deck: {}", rm::texts(&v)),
                                            );
                                        }
                                    }
                                }
                            }
                            x.streams.insert(key, (v.clone(), n, bytes, path.to_string()));
                        }
                        Some((o, n2, b2, p2)) => {
                            if *o != v {
                                fail(
                                    "not-replayable",
                                    format!("the stream {key} gave {} at {p2} and {} at {path}", rm::texts(o), rm::texts(&v)),
                                );
                            }
                            if (*n2, *b2) != (n, bytes) {
                                fail(
                                    "stream-position",
                                    format!("the stream {key} was left after {n2} draws ({b2} bytes) at {p2} and {n} ({bytes}) at {path}"),
                                );
                            }
                        }
                    }
                    record(path, 'W', || format!("{} {n} {bytes}", rm::texts(&v)));
                    if *keep > 0 {
                        keep_deck(*keep, d);
                    }
                    ok
                }
                Err(f) => {
                    count(C::ShufCut);
                    f
                }
            }
        }
        Op::Deal { deck, n } => {
            let x = w();
            let l = x.kept.len();
            let i = *deck as usize % l;
            if let Some((rest, dealt)) = &mut x.kept[i] {
                let k = (*n as usize).min(rest.len());
                let got: Vec<u8> = rest.drain(..k).map(rm::idx).collect();
                dealt.extend(&got);
                if got.len() >= 5 && got.len() <= 8 {
                    let ev = slot_ev(0);
                    let c = rm::cards(&got);
                    let r = plain("evaluate", || cl::eval_slice(&ev, &c));
                    check_eval(&ev, "evaluation of a dealt hand", &[&got], &r);
                    drop_ev(ev);
                }
            }
            kept_check(i);
            ok
        }
        Op::Msg { hand, faults, how, slot } => {
            msg_once(hand, faults, *how, *slot, path);
            if !faults.is_empty() {
                // the link heals: the retransmission must get through
                msg_once(hand, &[], *how, *slot, path);
            }
            ok
        }
        Op::Parse { items, kind, hint, parsers, steps, hooks, alloc } => {
            let f = run_parse(items, *kind, *hint, *parsers, steps, hooks, *alloc, path);
            Fired { fault: false, leak: 0 * f.leak }
        }
        Op::Chars { a, b } => {
            check_chars(*a, *b);
            ok
        }
        Op::Fmt { val, debug, torn, hooks, alloc } => run_fmt(val, *debug, *torn, hooks, *alloc, path),
        Op::Player { id, slot, hand } => {
            let ev = slot_ev(*slot);
            let c = rm::cards(hand);
            let r = plain("evaluate", || cl::eval_slice(&ev, &c));
            check_eval(&ev, "evaluation", &[hand], &r);
            drop_ev(ev);
            if let Ok(e) = r {
                w().players.insert(*id, (hand.clone(), e));
            }
            ok
        }
        Op::Net { modes, events } => {
            run_net(modes, events);
            ok
        }
        Op::Pairs => {
            run_pairs();
            ok
        }
        Op::Decks { given, seed, n, fresh } => {
            let mut all: Vec<u8> = Vec::with_capacity(*n as usize * 52);
            let mut g = Rng::new(*seed, 9, 9);
            for _ in 0..*n {
                let d = if *given {
                    if *fresh {
                        g = Rng::new(g.next(), 9, 10);
                    }
                    let mut draw = |_: u32| g.next();
                    let mut r = cl::SeamRng { draw: &mut draw, n: 0, bytes: 0 };
                    count(C::ShufWith);
                    plain("shuffled_with", || cl::shuffled_with(&mut r))
                } else {
                    count(C::ShufOs);
                    plain("shuffled", cl::shuffled)
                };
                all.extend(deck_check("shuffled deck", &d));
            }
            w().dealt.push((*given, all));
            ok
        }
        Op::Make { cards, way, alloc } => run_make(cards, *way, *alloc, path),
        Op::Order { cards, how, hooks } => run_order(cards, *how, hooks, path),
        Op::Yield => {
            std::thread::yield_now();
            ok
        }
        Op::Sleep(ns) => {
            std::thread::sleep(std::time::Duration::from_nanos(*ns));
            ok
        }
    }
}

/// Are two decks closer than independent shuffles ever are? The chance of 17
/// agreements between independent decks is below 1e-14.
pub fn related(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return Some("are the same".into());
    }
    let same = a.iter().zip(b).filter(|(x, y)| x == y).count();
    if same >= 17 {
        return Some(format!("agree in {same} positions"));
    }
    let mut next = [255u8; 52];
    for p in a.windows(2) {
        next[p[0] as usize] = p[1];
    }
    let adj = b.windows(2).filter(|p| next[p[0] as usize] == p[1]).count();
    if adj >= 17 {
        return Some(format!("share {adj} neighbouring pairs"));
    }
    let rev = a.iter().rev().zip(b).filter(|(x, y)| x == y).count();
    if rev >= 17 {
        return Some(format!("agree in {rev} positions when one is reversed"));
    }
    let mut prev = [255u8; 52];
    for p in a.windows(2) {
        prev[p[1] as usize] = p[0];
    }
    let radj = b.windows(2).filter(|p| prev[p[0] as usize] == p[1]).count();
    if radj >= 17 {
        return Some(format!("share {radj} neighbouring pairs in reverse"));
    }
    None
}

fn put_ev(slot: u8, e: Arc<Evaluator>) {
    let old = w().evs[slot as usize % SLOTS].replace(e);
    if let Some(o) = old {
        drop_ev(o);
    }
}
/// An evaluator is usable the moment it exists.
fn probe(slot: u8) {
    let Some(ev) = w().evs[slot as usize % SLOTS].clone() else { return };
    let n = w().counters[C::News as usize] * 7 + w().counters[C::Clones as usize] * 13 + w().counters[C::Moves as usize] * 29;
    let mut r = Rng::new(n, 3, slot as u64);
    for _ in 0..3 {
        let h = ladder().hands[r.us(rm::CLASSES)].to_vec();
        bulk_eval(&ev, &h, 0);
    }
    drop_ev(ev);
}

// ------------------------------------------------------------------- execution

/// Run a plan in this process. Does not return.
pub fn execute(plan: &Plan) -> ! {
    reset();
    let env = &plan.env;
    w().hard_entropy = env.ent_hard_after > 0 || env.ent_nodev > 0;
    w().want_transcript = plan.env2.is_some();
    w().total = plan.threads.len();
    if env.heap_shift > 0 {
        // other addresses for everything that follows
        std::mem::forget(vec![1u8; env.heap_shift as usize % 100_000]);
        std::mem::forget(vec![1u8; 200_000 + env.heap_shift as usize]);
    }
    rt::begin();
    rt::quiet(plan.quiet_setup);
    for (i, op) in plan.setup.iter().enumerate() {
        run_op(op, &format!("s{i}"));
    }
    rt::quiet(false);
    let mut hs = Vec::new();
    let deepest = plan.threads.iter().flatten().map(Op::depth).max().unwrap_or(0);
    let threads: Vec<Arc<Vec<Op>>> = plan.threads.iter().map(|t| Arc::new(t.clone())).collect();
    for (t, ops) in threads.iter().enumerate() {
        let ops = ops.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size((1 << 20) + (96 << 10) * deepest)
                .spawn(move || {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        for (i, op) in ops.iter().enumerate() {
                            run_op(op, &format!("t{t}.{i}"));
                        }
                    }));
                    if let Err(p) = r {
                        if p.is::<Injected>() || p.is::<AllocFail>() {
                            fail("foreign-panic", "an injected fault surfaced outside the call it was injected into");
                        }
                        resume_unwind(p);
                    }
                    thread_finished();
                })
                .unwrap_or_else(|_| finish(3, "cannot create a thread")),
        );
    }
    for h in hs {
        if let Err(p) = h.join() {
            finish(3, &format!("harness panic: {}", panic_text(&p)));
        }
    }
    rt::quiet(true);
    for (i, op) in plan.tail.iter().enumerate() {
        run_op(op, &format!("z{i}"));
    }
    for i in 0..w().kept.len() {
        kept_check(i);
    }
    if w().n_seen > 0 {
        // every strength seen, placed on the ladder of all strengths
        let ev = plain("Evaluator::new", cl::ev_new);
        let seen = w().seen.clone();
        let l = run_ladder(&ev, "evaluation on a new evaluator");
        for (i, s) in seen.iter().enumerate() {
            if let Some((e, m)) = s {
                if *e != l[i] || e.cmp(&l[i]) != std::cmp::Ordering::Equal {
                    fail(
                        "wrong-strength",
                        format!(
                            "{} ({}) came out as {e:?}, but the hand {} of the same strength as {:?}",
                            show_hand(&rm::unmask(*m)),
                            rm::name(ladder().keys[i]),
                            show_hand(&ladder().hands[i]),
                            l[i]
                        ),
                    );
                }
            }
        }
    }
    let t = serde_json::to_string(&w().transcript).unwrap();
    rt::end();
    if !w().dealt.is_empty() {
        let mut b: Vec<u8> = Vec::new();
        if let Some(g) = &w().gen_order {
            b.extend([2, 1, 0, 0, 0]);
            b.extend(g);
        }
        for (given, d) in &w().dealt {
            b.push(*given as u8);
            b.extend(((d.len() / 52) as u32).to_le_bytes());
            b.extend(d);
        }
        finish_bytes(1, &b)
    }
    finish(1, if w().want_transcript { &t } else { "" })
}
