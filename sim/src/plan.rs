//! Plans: one simulated execution written out as data. A plan plus the code
//! under test determines the execution completely.
use serde::{Deserialize, Serialize};

use crate::rt::{Dec, Env};

pub type Hand = Vec<u8>;

/// What caller-supplied code does when the library calls it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// fail by panicking
    Panic,
    /// report an error (formatting targets only)
    Err,
    /// block; the number is how many further calls by others end it (0 = until
    /// every other thread is finished or blocked the same way)
    Stall(u32),
    /// call back into the library
    Call(Box<Op>),
    Yield,
    Sleep(u64),
}
/// At the `at`-th call of the seam (from 1), do `act`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hk {
    pub at: u32,
    pub act: Act,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SegKind {
    Zero,
    Ones,
    Const(u64),
    Alternate(u64, u64),
    Counter(u64),
    Period(Vec<u64>),
    /// only the lowest n bits vary
    LowBits(u32),
    HighBits(u32),
    /// the values of a healthy source, from the n-th on
    Same(u64, u32),
}
/// A random stream: `segs` are windows of misbehaviour (kind, number of draws)
/// after which the stream is healthy.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RngSpec {
    pub seed: u64,
    pub segs: Vec<(SegKind, u32)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LinkFault {
    DropTok(u32),
    DupTok(u32, u32),
    SwapTok(u32, u32),
    JoinTok(u32),
    CaseTok(u32),
    /// replace character `.1` of token `.0`
    ReplaceCh(u32, u32, String),
    InsertCh(u32, u32, String),
    Truncate(u32),
    FlipBit(u32, u8),
    SetByte(u32, u8),
    DropByte(u32),
    /// white space other than a space between two tokens
    Space(u32, String),
    /// each byte read as a Latin-1 character
    Latin1,
    /// append the tokens of another (delayed) message
    Late(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Str(String),
    /// the source reports its end, and later goes on
    Pause,
    Panic,
    /// a string whose accessor answers differently from call to call
    Vary(Vec<String>),
    /// a string whose accessor panics
    PanicStr(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Next(u8),
    Nth(u8, u32),
    Take(u8, u32),
    FindErr(u8),
    SizeHint(u8),
    /// another consumer takes one string from the shared source
    Steal,
    /// consume parser: 0 fold, 1 count, 2 last, 3 collect, 4 try_collect,
    /// 5 try_collect into a box, 6 collect into a Result, 7 drop
    End(u8, u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Card(u8),
    Rank(u8),
    Suit(u8),
    /// category 0..=8 and two ranks
    Class(u8, u8, u8),
    Eval(Hand),
    Best,
    Worst,
    ParseErr(String),
    CharsErr(char, char),
    DupErr(Hand),
    FewErr(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// many calls: memory and work must not grow with their number
    Soak { slot: u8, kind: u8, seed: u64, n: u32 },
    /// the same with this many threads that come and go
    Churn { slot: u8, kind: u8, seed: u64, n: u32, threads: u32 },
    /// the same call this many times
    Again { slot: u8, kind: u8, seed: u64, n: u32 },
    /// the cases numbered `at` to `at + n`: kind 0 five-card hands, 1 code points,
    /// 2 strengths against all others
    Sweep { slot: u8, kind: u8, at: u64, n: u32 },
    /// the process deals `before` decks, forks this often, and all deal `n` more
    Fork { before: u32, kids: u32, n: u32 },
    /// this many evaluators alive at once
    Hoard { slot: u8, seed: u64, n: u32 },
    New { slot: u8, default: bool, alloc: u32 },
    /// the downloaded table instead of an evaluator
    Static { slot: u8 },
    Clone { from: u8, to: u8, into: bool, alloc: u32 },
    Drop { slot: u8 },
    /// move the evaluator (not a handle to it) between slots, hence threads
    Move { from: u8, to: u8 },
    Cmp { a: u8, b: u8 },
    Eval { slot: u8, views: Vec<Hand>, how: u8, seam: bool, hooks: Vec<Hk>, alloc: u32 },
    /// many checked evaluations; kind 0 related hands, 1 every strength, 2 random
    /// five-card, 3 random seven-card, 4 repeated-key hunting
    Batch { slot: u8, seed: u64, n: u32, kind: u8 },
    /// all strengths in order on one evaluator
    Ladder { slot: u8 },
    Generate { take: u32, how: u8, alloc: u32 },
    GenPair { pattern: u64, hooks: Vec<Hk> },
    Shuffled { alloc: u32, keep: u8 },
    ShuffleWith { rng: RngSpec, how: u8, hooks: Vec<Hk>, alloc: u32, keep: u8 },
    /// a standard generator in several forms
    RealRng { seed: u64, skip: u32 },
    /// deal cards out of a kept deck
    Deal { deck: u8, n: u32 },
    Msg { hand: Hand, faults: Vec<LinkFault>, how: u8, slot: u8 },
    Parse { items: Vec<Item>, kind: u8, hint: u8, parsers: u8, steps: Vec<Step>, hooks: Vec<Hk>, alloc: u32 },
    Chars { a: char, b: char },
    Fmt { val: Val, debug: bool, torn: u32, hooks: Vec<Hk>, alloc: u32 },
    /// a player of a showdown evaluates its hand
    Player { id: u8, slot: u8, hand: Hand },
    /// results travel to observers over a simulated network: events in order
    Net { modes: Vec<u8>, events: Vec<Ev> },
    Pairs,
    /// build these cards in one of the possible ways
    Make { cards: Hand, way: u8, alloc: u32 },
    /// compare, sort, merge or group these cards
    Order { cards: Hand, how: u8, hooks: Vec<Hk> },
    /// deal many decks for the statistics
    Decks { given: bool, seed: u64, n: u32, fresh: bool },
    Yield,
    Sleep(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    /// player's result reaches observer
    Deliver(u8, u8),
    /// observer sends its current partial outcome to another
    Gossip(u8, u8),
    /// observer forgets everything (crash and restart with nothing durable)
    Restart(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub profile: String,
    pub env: Env,
    /// a second environment to run the same plan in
    #[serde(default)]
    pub env2: Option<Env>,
    /// how the two must relate: "same" transcript or "unrelated" decks
    #[serde(default)]
    pub relation: String,
    #[serde(default)]
    pub quiet_setup: bool,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub tail: Vec<Op>,
    /// explicit schedule, replacing the seeded one
    #[serde(default)]
    pub decisions: Option<Vec<Dec>>,
    #[serde(default)]
    pub decisions2: Option<Vec<Dec>>,
    /// what this run is expected to show (in replay files)
    #[serde(default)]
    pub violation: Option<(String, String)>,
    /// and its exact event hash
    #[serde(default)]
    pub hash: Option<String>,
}

// ------------------------------------------------------------------ shrinking

fn drop_each<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = Vec::new();
    if v.len() > 3 {
        let h = v.len() / 2;
        o.push(v[..h].to_vec());
        o.push(v[h..].to_vec());
    }
    for i in 0..v.len().min(40) {
        let mut w = v.to_vec();
        w.remove(i);
        o.push(w);
    }
    o
}
fn hooks_less(h: &[Hk]) -> Vec<Vec<Hk>> {
    let mut o = drop_each(h);
    for (i, k) in h.iter().enumerate() {
        let mut alts = Vec::new();
        if k.at > 1 {
            alts.push(Hk { at: 1, act: k.act.clone() });
            alts.push(Hk { at: k.at / 2, act: k.act.clone() });
        }
        match &k.act {
            Act::Call(op) => {
                for s in shrink(op) {
                    alts.push(Hk { at: k.at, act: Act::Call(Box::new(s)) });
                }
            }
            Act::Stall(n) if *n > 0 => alts.push(Hk { at: k.at, act: Act::Stall(0) }),
            _ => {}
        }
        for a in alts {
            let mut w = h.to_vec();
            w[i] = a;
            o.push(w);
        }
    }
    o
}
fn hand_less(h: &Hand) -> Vec<Hand> {
    let mut o = Vec::new();
    if h.len() > 0 {
        o = drop_each(h);
    }
    o
}

/// Simpler operations to try in place of `op`.
pub fn shrink(op: &Op) -> Vec<Op> {
    let mut o = Vec::new();
    match op.clone() {
        Op::New { slot, default, alloc } => {
            if default {
                o.push(Op::New { slot, default: false, alloc });
            }
            if alloc > 1 {
                o.push(Op::New { slot, default, alloc: 1 });
            }
        }
        Op::Clone { from, to, into, alloc } => {
            if into {
                o.push(Op::Clone { from, to, into: false, alloc });
            }
            if alloc > 1 {
                o.push(Op::Clone { from, to, into, alloc: 1 });
            }
        }
        Op::Eval { slot, views, how, seam, hooks, alloc } => {
            if views.len() > 1 {
                for v in drop_each(&views) {
                    o.push(Op::Eval { slot, views: v, how, seam, hooks: hooks.clone(), alloc });
                }
            }
            for h in hooks_less(&hooks) {
                o.push(Op::Eval { slot, views: views.clone(), how, seam, hooks: h, alloc });
            }
            if alloc > 0 {
                o.push(Op::Eval { slot, views: views.clone(), how, seam, hooks: hooks.clone(), alloc: 0 });
            }
            if seam && hooks.is_empty() && views.len() == 1 {
                o.push(Op::Eval { slot, views: views.clone(), how: 0, seam: false, hooks: vec![], alloc });
            }
            if !seam && how != 0 {
                o.push(Op::Eval { slot, views: views.clone(), how: 0, seam, hooks: hooks.clone(), alloc });
            }
            for (i, v) in views.iter().enumerate() {
                for h in hand_less(v) {
                    let mut w = views.clone();
                    w[i] = h;
                    o.push(Op::Eval { slot, views: w, how, seam, hooks: hooks.clone(), alloc });
                }
            }
        }
        Op::Again { slot, kind, seed, n } if n > 1 => {
            for k in [n / 2, n - n / 8 - 1, n - 1] {
                o.push(Op::Again { slot, kind, seed, n: k });
            }
        }
        Op::Sweep { slot, kind, at, n } if n > 1 => {
            o.push(Op::Sweep { slot, kind, at, n: n / 2 });
            o.push(Op::Sweep { slot, kind, at: at + n as u64 / 2, n: n - n / 2 });
            o.push(Op::Sweep { slot, kind, at: at + 1, n: n - 1 });
            o.push(Op::Sweep { slot, kind, at, n: n - 1 });
        }
        Op::Fork { before, kids, n } => {
            if before > 0 {
                o.push(Op::Fork { before: before - 1, kids, n });
            }
            if kids > 1 {
                o.push(Op::Fork { before, kids: kids - 1, n });
            }
            if n > 1 {
                o.push(Op::Fork { before, kids, n: n - 1 });
            }
        }
        Op::Hoard { slot, seed, n } if n > 1 => {
            o.push(Op::Hoard { slot, seed, n: n / 2 });
            o.push(Op::Hoard { slot, seed, n: n - 1 });
        }
        Op::Soak { slot, kind, seed, n } if n > 1 => {
            o.push(Op::Soak { slot, kind, seed, n: n / 2 });
            o.push(Op::Soak { slot, kind, seed, n: n - n / 8 - 1 });
        }
        Op::Churn { slot, kind, seed, n, threads } if n > 1 => {
            o.push(Op::Churn { slot, kind, seed, n: n / 2, threads });
            o.push(Op::Churn { slot, kind, seed, n: n - n / 8 - 1, threads });
        }
        Op::Batch { slot, seed, n, kind } => {
            for m in [n / 2, n * 3 / 4, n.saturating_sub(n / 16), n.saturating_sub(1)] {
                if m > 0 && m < n {
                    o.push(Op::Batch { slot, seed, n: m, kind });
                }
            }
        }
        Op::Decks { given, seed, n, fresh } if n > 1 => {
            o.push(Op::Decks { given, seed, n: n / 2, fresh });
        }
        Op::Generate { take, how, alloc } => {
            if how != 0 {
                o.push(Op::Generate { take, how: 0, alloc });
            }
        }
        Op::GenPair { pattern, hooks } => {
            for h in hooks_less(&hooks) {
                o.push(Op::GenPair { pattern, hooks: h });
            }
        }
        Op::Shuffled { alloc, keep } if alloc > 0 => o.push(Op::Shuffled { alloc: 0, keep }),
        Op::ShuffleWith { rng, how, hooks, alloc, keep } => {
            for s in drop_each(&rng.segs) {
                o.push(Op::ShuffleWith {
                    rng: RngSpec { seed: rng.seed, segs: s },
                    how,
                    hooks: hooks.clone(),
                    alloc,
                    keep,
                });
            }
            for h in hooks_less(&hooks) {
                o.push(Op::ShuffleWith { rng: rng.clone(), how, hooks: h, alloc, keep });
            }
            if how != 0 {
                o.push(Op::ShuffleWith { rng: rng.clone(), how: 0, hooks: hooks.clone(), alloc, keep });
            }
            if alloc > 0 {
                o.push(Op::ShuffleWith { rng, how, hooks, alloc: 0, keep });
            }
        }
        Op::Deal { deck, n } if n > 1 => o.push(Op::Deal { deck, n: 1 }),
        Op::Msg { hand, faults, how, slot } => {
            for f in drop_each(&faults) {
                o.push(Op::Msg { hand: hand.clone(), faults: f, how, slot });
            }
            for h in hand_less(&hand) {
                o.push(Op::Msg { hand: h, faults: faults.clone(), how, slot });
            }
            if how != 0 {
                o.push(Op::Msg { hand, faults, how: 0, slot });
            }
        }
        Op::Parse { items, kind, hint, parsers, steps, hooks, alloc } => {
            let mk = |items: Vec<Item>, kind, hint, parsers, steps: Vec<Step>, hooks: Vec<Hk>, alloc| Op::Parse {
                items,
                kind,
                hint,
                parsers,
                steps,
                hooks,
                alloc,
            };
            for s in drop_each(&steps) {
                o.push(mk(items.clone(), kind, hint, parsers, s, hooks.clone(), alloc));
            }
            for i in drop_each(&items) {
                o.push(mk(i, kind, hint, parsers, steps.clone(), hooks.clone(), alloc));
            }
            for h in hooks_less(&hooks) {
                o.push(mk(items.clone(), kind, hint, parsers, steps.clone(), h, alloc));
            }
            if alloc > 0 {
                o.push(mk(items.clone(), kind, hint, parsers, steps.clone(), hooks.clone(), 0));
            }
            if hint != 0 {
                o.push(mk(items.clone(), kind, 0, parsers, steps.clone(), hooks.clone(), alloc));
            }
            if kind != 0 {
                o.push(mk(items, 0, hint, parsers, steps, hooks, alloc));
            }
        }
        Op::Fmt { val, debug, torn, hooks, alloc } => {
            for h in hooks_less(&hooks) {
                o.push(Op::Fmt { val: val.clone(), debug, torn, hooks: h, alloc });
            }
            if alloc > 0 {
                o.push(Op::Fmt { val: val.clone(), debug, torn, hooks: hooks.clone(), alloc: 0 });
            }
            if torn > 0 {
                o.push(Op::Fmt { val: val.clone(), debug, torn: 0, hooks: hooks.clone(), alloc });
            }
            if let Val::DupErr(h) = &val {
                for x in hand_less(h) {
                    o.push(Op::Fmt { val: Val::DupErr(x), debug, torn, hooks: hooks.clone(), alloc });
                }
            }
        }
        Op::Make { cards, way, alloc } => {
            if alloc > 0 {
                o.push(Op::Make { cards: cards.clone(), way, alloc: 0 });
            }
            for c in hand_less(&cards) {
                o.push(Op::Make { cards: c, way, alloc });
            }
        }
        Op::Order { cards, how, hooks } => {
            for h in hooks_less(&hooks) {
                o.push(Op::Order { cards: cards.clone(), how, hooks: h });
            }
            for c in hand_less(&cards) {
                o.push(Op::Order { cards: c, how, hooks: hooks.clone() });
            }
        }
        Op::Net { modes, events } => {
            for e in drop_each(&events) {
                o.push(Op::Net { modes: modes.clone(), events: e });
            }
        }
        _ => {}
    }
    o
}

impl Op {
    fn hooks(&self) -> &[Hk] {
        match self {
            Op::Eval { hooks, .. }
            | Op::GenPair { hooks, .. }
            | Op::ShuffleWith { hooks, .. }
            | Op::Parse { hooks, .. }
            | Op::Fmt { hooks, .. }
            | Op::Order { hooks, .. } => hooks,
            _ => &[],
        }
    }
    /// How many calls made by caller code there are inside each other.
    pub fn depth(&self) -> usize {
        self.hooks().iter().map(|h| if let Act::Call(o) = &h.act { 1 + o.depth() } else { 0 }).max().unwrap_or(0)
    }
    /// Cards in it.
    pub fn size(&self) -> usize {
        match self {
            Op::Eval { views, .. } => views.iter().map(|v| if v.len() > 9 { 999 } else { v.len() }).sum(),
            Op::Make { cards, .. } | Op::Order { cards, .. } => cards.len(),
            Op::Fmt { val: Val::DupErr(h), .. } => h.len(),
            _ => 0,
        }
    }
}
