//! The simulated program's side of the library: the places where the generic
//! entry points of `poker` are instantiated. Compiled with the same
//! instrumentation as `poker` itself, so every memory access made in a
//! monomorphised library function is a possible preemption point.
//!
//! The seam types stand for caller-supplied code. Each of their methods calls a
//! hook through which the simulator runs faults, stalls and re-entrant calls.

use std::{borrow::Cow, fmt, rc::Rc, sync::Arc};

use poker::{deck, Card, Eval, EvalError, ParseCardError};
use rand::{Error as RngError, RngCore};

/// What the seams call. `n` counts the calls of that seam object, from 1.
pub trait Hook {
    fn at(&self, n: u32);
}

// ---------------------------------------------------------------- evaluation

/// What answers: an evaluator, or (where built in) the free function that uses
/// the table downloaded at build time.
pub enum Ev {
    Built(poker::Evaluator),
    #[cfg(feature = "static")]
    Downloaded,
}
impl Ev {
    #[inline(always)]
    pub fn evaluate<C: AsRef<[Card]>>(&self, c: C) -> Result<Eval, EvalError> {
        match self {
            Ev::Built(e) => e.evaluate(c),
            #[cfg(feature = "static")]
            Ev::Downloaded => poker::evaluate::static_lookup::evaluate(c),
        }
    }
}
#[cfg(feature = "static")]
pub fn ev_downloaded() -> Ev { Ev::Downloaded }
#[cfg(not(feature = "static"))]
pub fn ev_downloaded() -> Ev { panic!("this simulator was built without the downloaded table") }

/// A caller's card container: may answer differently each time it is asked.
pub struct SeamHand<'a> {
    pub views: &'a [Vec<Card>],
    pub calls: &'a std::cell::Cell<u32>,
    pub hook: &'a dyn Hook,
}
impl AsRef<[Card]> for SeamHand<'_> {
    fn as_ref(&self) -> &[Card] {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        self.hook.at(n);
        &self.views[(n as usize - 1) % self.views.len()]
    }
}

pub const CONTAINERS: u8 = 14;

macro_rules! arr {
    ($ev:expr, $c:expr, $($n:literal)+) => {
        match $c.len() {
            $($n => {
                let a: [Card; $n] = <[Card; $n]>::try_from($c).unwrap();
                $ev.evaluate(a)
            })+
            _ => $ev.evaluate($c),
        }
    };
}
macro_rules! arr_ref {
    ($ev:expr, $c:expr, $($n:literal)+) => {
        match $c.len() {
            $($n => {
                let a: [Card; $n] = <[Card; $n]>::try_from($c).unwrap();
                $ev.evaluate(&a)
            })+
            _ => $ev.evaluate($c),
        }
    };
}

#[inline(never)]
pub fn eval_slice(ev: &Ev, c: &[Card]) -> Result<Eval, EvalError> { ev.evaluate(c) }

/// Evaluate `c` carried by one of the container types a caller may use.
#[inline(never)]
pub fn eval_in(ev: &Ev, how: u8, c: &[Card]) -> Result<Eval, EvalError> {
    match how % CONTAINERS {
        0 => ev.evaluate(c),
        1 => ev.evaluate(c.to_vec()),
        2 => ev.evaluate(&c.to_vec()),
        3 => ev.evaluate(c.to_vec().into_boxed_slice()),
        4 => arr!(ev, c, 0 1 2 3 4 5 6 7 8 9),
        5 => arr_ref!(ev, c, 0 1 2 3 4 5 6 7 8 9),
        6 => ev.evaluate(Arc::<[Card]>::from(c)),
        7 => ev.evaluate(Rc::<[Card]>::from(c)),
        8 => ev.evaluate(Cow::<[Card]>::Borrowed(c)),
        9 => ev.evaluate(&mut c.to_vec()),
        10 => {
            let m = c.len() / 2;
            let (board, hand) = c.split_at(m);
            ev.evaluate(poker::box_cards!(board, hand))
        }
        11 => {
            let (a, b) = c.split_at(c.len().min(2));
            let (b, d) = b.split_at(b.len().min(3));
            ev.evaluate(poker::box_cards!(a, b.to_vec(), d))
        }
        12 => ev.evaluate(Cow::<[Card]>::Owned(c.to_vec())),
        _ => {
            // spare capacity and an offset view into a larger buffer
            let mut v = Vec::with_capacity(c.len() + 9);
            v.extend_from_slice(c);
            v.extend_from_slice(c);
            ev.evaluate(&v[c.len()..])
        }
    }
}
#[inline(never)]
pub fn eval_seam(ev: &Ev, h: SeamHand<'_>) -> Result<Eval, EvalError> { ev.evaluate(h) }
#[inline(never)]
pub fn eval_seam_ref(ev: &Ev, h: &SeamHand<'_>) -> Result<Eval, EvalError> { ev.evaluate(h) }

// ---------------------------------------------------------------- evaluators

#[inline(never)]
pub fn ev_new() -> Ev { Ev::Built(poker::Evaluator::new()) }
#[inline(never)]
pub fn ev_default() -> Ev { Ev::Built(poker::Evaluator::default()) }
#[inline(never)]
pub fn ev_clone(e: &Ev) -> Ev {
    match e {
        Ev::Built(e) => Ev::Built(e.clone()),
        #[cfg(feature = "static")]
        Ev::Downloaded => Ev::Downloaded,
    }
}
#[inline(never)]
pub fn ev_clone_from(to: &mut Ev, from: &Ev) {
    match (to, from) {
        (Ev::Built(to), Ev::Built(from)) => to.clone_from(from),
        #[cfg(feature = "static")]
        (to, from) => *to = ev_clone(from),
    }
}
#[inline(never)]
pub fn ev_eq(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Built(a), Ev::Built(b)) => a == b,
        #[cfg(feature = "static")]
        _ => true,
    }
}
#[inline(never)]
pub fn ev_ne(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Built(a), Ev::Built(b)) => a != b,
        #[cfg(feature = "static")]
        _ => false,
    }
}

// --------------------------------------------------------------------- decks

#[inline(never)]
pub fn generate(take: usize) -> Vec<Card> { deck::generate().take(take).collect() }
/// Two generators drained alternately, with caller code between the steps.
#[inline(never)]
pub fn generate_pair(pattern: u64, hook: &dyn Hook) -> (Vec<Card>, Vec<Card>) {
    let (mut a, mut b) = (deck::generate(), deck::generate());
    let (mut va, mut vb) = (Vec::new(), Vec::new());
    let (mut da, mut db) = (false, false);
    let mut i = 0u32;
    while !(da && db) && i < 400 {
        hook.at(i + 1);
        let first = db || (!da && pattern >> (i % 64) & 1 == 0);
        let (g, v, d): (&mut dyn Iterator<Item = Card>, &mut Vec<Card>, &mut bool) =
            if first { (&mut a, &mut va, &mut da) } else { (&mut b, &mut vb, &mut db) };
        match g.next() {
            Some(c) => v.push(c),
            None => *d = true,
        }
        i += 1;
    }
    (va, vb)
}
/// Different ways of draining a generated deck.
#[inline(never)]
pub fn generate_via(how: u8) -> Vec<Card> {
    let mut g = deck::generate();
    match how % 16 {
        0 => g.collect(),
        1 => g.fold(Vec::new(), |mut v, c| {
            v.push(c);
            v
        }),
        2 => {
            let mut v = Vec::new();
            for c in g.by_ref() {
                v.push(c);
            }
            v
        }
        3 => {
            let mut v: Vec<Card> = g.by_ref().take(17).collect();
            v.extend(g.nth(0));
            v.extend(g);
            v
        }
        5..=9 => {
            // dealt in strides, then once more in order
            let all: Vec<Card> = deck::generate().collect();
            let mut at = 0;
            let mut step = how as usize;
            while at < 52 {
                step = (step * 7 + 3) % 11;
                let c = g.nth(step);
                at += step;
                assert!(c == all.get(at).copied(), "nth skipped to another card than taking one by one");
                at += 1;
                let (lo, hi) = g.size_hint();
                let left = 52usize.saturating_sub(at);
                assert!(lo <= left && hi.map_or(true, |h| h >= left), "size hint excludes the cards left");
            }
            for _ in 0..3 {
                assert!(g.next().is_none(), "a deck that is dealt out deals again");
            }
            all
        }
        10 => {
            let all: Vec<Card> = g.collect();
            assert!(deck::generate().last() == all.last().copied(), "last is another card");
            assert!(deck::generate().count() == 52, "a deck does not count 52 cards");
            let s: Vec<Card> = deck::generate().step_by(4).collect();
            let t: Vec<Card> = all.iter().copied().step_by(4).collect();
            assert!(s == t, "stepping deals other cards");
            let s: Vec<Card> = deck::generate().skip(17).collect();
            assert!(s == all[17..], "skipping deals other cards");
            all
        }
        11 | 12 => {
            // two decks in turn
            let mut h = deck::generate();
            let (mut v, mut u) = (Vec::new(), Vec::new());
            for i in 0..200 {
                if how == 11 || i % 3 != 0 {
                    v.extend(g.next());
                }
                u.extend(h.next());
            }
            assert!(u == v, "two decks dealt in turn differ");
            v
        }
        _ => {
            let (lo, hi) = g.size_hint();
            assert!(lo <= 52 && hi.map_or(true, |h| h >= 52), "size hint excludes 52 cards");
            let mut v = Vec::new();
            while let Some(c) = g.next() {
                v.push(c);
            }
            v
        }
    }
}
#[inline(never)]
pub fn shuffled() -> Vec<Card> { deck::shuffled() }

/// A caller's random number source.
pub struct SeamRng<'a> {
    pub draw: &'a mut dyn FnMut(u32) -> u64,
    pub n: u32,
    pub bytes: u64,
}
impl SeamRng<'_> {
    fn step(&mut self, bytes: u64) -> u64 {
        self.n += 1;
        self.bytes += bytes;
        (self.draw)(self.n)
    }
}
impl RngCore for SeamRng<'_> {
    fn next_u32(&mut self) -> u32 { self.step(4) as u32 }
    fn next_u64(&mut self) -> u64 { self.step(8) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let n = c.len();
            let v = self.step(n as u64).to_le_bytes();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RngError> {
        self.fill_bytes(dest);
        Ok(())
    }
}
#[inline(never)]
pub fn shuffled_with(r: &mut SeamRng<'_>) -> Vec<Card> { deck::shuffled_with(r) }
#[inline(never)]
pub fn shuffled_with_dyn(r: &mut dyn RngCore) -> Vec<Card> { deck::shuffled_with(r) }
#[inline(never)]
pub fn shuffled_with_refref(r: &mut SeamRng<'_>) -> Vec<Card> {
    let mut rr = r;
    deck::shuffled_with(&mut rr)
}
#[inline(never)]
pub fn shuffled_with_box(r: &mut SeamRng<'_>) -> Vec<Card> {
    let mut b: Box<&mut dyn RngCore> = Box::new(r);
    deck::shuffled_with(&mut b)
}

/// The same source in a large, strictly aligned value.
#[repr(align(64))]
struct Wide<'a, R> {
    r: &'a mut R,
    pad: [u64; 40],
}
impl<R: RngCore> RngCore for Wide<'_, R> {
    fn next_u32(&mut self) -> u32 { self.r.next_u32() }
    fn next_u64(&mut self) -> u64 { self.r.next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.r.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> { self.r.try_fill_bytes(d) }
}
#[inline(never)]
pub fn shuffled_with_wide(r: &mut SeamRng<'_>) -> Vec<Card> {
    let mut w = Wide { r, pad: [1; 40] };
    let d = deck::shuffled_with(&mut w);
    std::hint::black_box(&w.pad);
    d
}
std::thread_local! {
    static CURRENT: std::cell::Cell<*mut SeamRng<'static>> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
/// A source without a size: it stands for the one its thread uses now.
struct Handle;
impl Handle {
    fn now(&mut self) -> &mut SeamRng<'static> { unsafe { &mut *CURRENT.get() } }
}
impl RngCore for Handle {
    fn next_u32(&mut self) -> u32 { self.now().next_u32() }
    fn next_u64(&mut self) -> u64 { self.now().next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.now().fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> { self.now().try_fill_bytes(d) }
}
#[inline(never)]
pub fn shuffled_with_handle(r: &mut SeamRng<'_>) -> Vec<Card> {
    struct Put(*mut SeamRng<'static>);
    impl Drop for Put {
        fn drop(&mut self) { CURRENT.set(self.0) }
    }
    let _put = Put(CURRENT.replace(r as *mut SeamRng<'_> as *mut SeamRng<'static>));
    deck::shuffled_with(&mut Handle)
}
/// One real generator, `skip` words into its stream, in several forms: what each
/// deals, and the number that follows.
#[inline(never)]
pub fn real_forms(seed: u64, skip: u32) -> [(Vec<Card>, u64); 4] {
    use rand::{rngs::StdRng, SeedableRng};
    let new = || {
        let mut r = StdRng::seed_from_u64(seed);
        for _ in 0..skip {
            r.next_u32();
        }
        r
    };
    let mut a = new();
    let da = deck::shuffled_with(&mut a);
    let mut b = new();
    let db = deck::shuffled_with(&mut b as &mut dyn RngCore);
    let mut c = Box::new(new());
    let dc = deck::shuffled_with(&mut c);
    let mut d = new();
    let dd = {
        let mut w = Wide { r: &mut d, pad: [2; 40] };
        let x = deck::shuffled_with(&mut w);
        std::hint::black_box(&w.pad);
        x
    };
    [(da, a.next_u64()), (db, b.next_u64()), (dc, c.next_u64()), (dd, d.next_u64())]
}

// ------------------------------------------------------------------- parsing

pub type PRes = Result<Card, ParseCardError>;

/// A parser behind a vtable, so that the harness can keep one across steps.
pub trait DynParser {
    fn next(&mut self) -> Option<PRes>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn nth(&mut self, n: usize) -> Option<PRes>;
    fn take_some(&mut self, n: usize) -> Vec<PRes>;
    fn find_err(&mut self) -> Option<PRes>;
    fn fold(self: Box<Self>) -> Vec<PRes>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<PRes>;
    fn collect_all(self: Box<Self>) -> Vec<PRes>;
    fn try_collect(self: Box<Self>) -> Result<Vec<Card>, ParseCardError>;
    fn try_collect_box(self: Box<Self>) -> Result<Box<[Card]>, ParseCardError>;
    fn collect_result(self: Box<Self>) -> Result<Vec<Card>, ParseCardError>;
}
impl<I: Iterator<Item = PRes>> DynParser for poker::card::ParseToIter<I> {
    #[inline(never)]
    fn next(&mut self) -> Option<PRes> { Iterator::next(self) }
    #[inline(never)]
    fn size_hint(&self) -> (usize, Option<usize>) { Iterator::size_hint(self) }
    #[inline(never)]
    fn nth(&mut self, n: usize) -> Option<PRes> { Iterator::nth(self, n) }
    #[inline(never)]
    fn take_some(&mut self, n: usize) -> Vec<PRes> { self.by_ref().take(n).collect() }
    #[inline(never)]
    fn find_err(&mut self) -> Option<PRes> { Iterator::find(self, |r| r.is_err()) }
    #[inline(never)]
    fn fold(self: Box<Self>) -> Vec<PRes> {
        Iterator::fold(*self, Vec::new(), |mut v, r| {
            v.push(r);
            v
        })
    }
    #[inline(never)]
    fn count(self: Box<Self>) -> usize { Iterator::count(*self) }
    #[inline(never)]
    fn last(self: Box<Self>) -> Option<PRes> { Iterator::last(*self) }
    #[inline(never)]
    fn collect_all(self: Box<Self>) -> Vec<PRes> { Iterator::collect(*self) }
    #[inline(never)]
    fn try_collect(self: Box<Self>) -> Result<Vec<Card>, ParseCardError> {
        poker::card::ParseToIter::try_collect(*self)
    }
    #[inline(never)]
    fn try_collect_box(self: Box<Self>) -> Result<Box<[Card]>, ParseCardError> {
        poker::card::ParseToIter::try_collect(*self)
    }
    #[inline(never)]
    fn collect_result(self: Box<Self>) -> Result<Vec<Card>, ParseCardError> { Iterator::collect(*self) }
}

#[inline(never)]
pub fn parser<'a, S>(it: S) -> Box<dyn DynParser + 'a>
where
    S: IntoIterator + 'a,
    S::Item: AsRef<str>,
{
    Box::new(Card::parse_to_iter(it))
}
#[inline(never)]
pub fn parse_str(s: &str) -> PRes { s.parse() }
#[inline(never)]
pub fn parse_card_macro(s: &str) -> PRes { poker::card!(s) }
#[inline(never)]
pub fn parse_chars(a: char, b: char) -> PRes { Card::try_from_chars(a, b) }
#[inline(never)]
pub fn parse_text(s: &str) -> Result<Vec<Card>, ParseCardError> { poker::cards!(s).try_collect() }
#[inline(never)]
pub fn parse_text_all(s: &str) -> Vec<PRes> { poker::cards!(s).collect() }
#[inline(never)]
pub fn parse_strs(s: &[String]) -> Result<Vec<Card>, ParseCardError> { Card::parse_to_iter(s).try_collect() }
#[inline(never)]
pub fn parse_macro_list(s: &[String]) -> Vec<PRes> {
    match s {
        [a, b] => poker::cards!(a.as_str(), b.as_str()).collect(),
        [a, b, c] => poker::cards!(a, b, c).collect(),
        [a, b, c, d, e] => poker::cards!(a, b, c, d, e).collect(),
        [a, b, c, d, e, f, g] => poker::cards!(a, b, c, d, e, f, g).collect(),
        s => Card::parse_to_iter(s).collect(),
    }
}

// ------------------------------------------------------------------ printing

/// A formatting target that may fail, panic, stall or call back.
pub struct SeamSink<'a> {
    pub text: &'a mut String,
    pub n: u32,
    /// called before each write with its number; `true` = fail this write
    pub hook: &'a mut dyn FnMut(u32) -> bool,
    /// on failure, how many characters of the piece got through
    pub torn: usize,
}
impl fmt::Write for SeamSink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        if (self.hook)(self.n) {
            for c in s.chars().take(self.torn) {
                self.text.push(c);
            }
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

#[inline(never)]
pub fn show(v: &dyn fmt::Display, s: &mut SeamSink<'_>) -> fmt::Result {
    use fmt::Write;
    write!(s, "{}", v)
}
#[inline(never)]
pub fn show_debug(v: &dyn fmt::Debug, s: &mut SeamSink<'_>) -> fmt::Result {
    use fmt::Write;
    write!(s, "{:?}", v)
}
#[inline(never)]
pub fn to_string(v: &dyn fmt::Display) -> String { v.to_string() }
#[inline(never)]
pub fn rank_suit_string(c: Card) -> String { c.rank_suit_string() }
/// A rank's and a suit's characters, and the way back from any character.
#[inline(never)]
pub fn rank_char(r: poker::Rank) -> char { r.as_char() }
#[inline(never)]
pub fn suit_chars(s: poker::Suit) -> (char, char) { (s.as_char(), s.as_pretty_char()) }
#[inline(never)]
pub fn from_char(c: char) -> (Result<poker::Rank, char>, Result<poker::Suit, char>) {
    (poker::Rank::try_from(c), poker::Suit::try_from(c))
}

// --------------------------------------------------------------------- cards

/// Every card written out at compile time, in the order of the model's numbers.
const COMMA: [Card; 52] = poker::cards!(
    Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades;
    Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades;
    Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades;
    Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades;
    Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades;
    Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades;
    Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades;
    Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades;
    Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades;
    Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades;
    Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades;
    King, Clubs; King, Diamonds; King, Hearts; King, Spades;
    Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades;
);
const OF: [Card; 52] = poker::cards!(
    Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades,
    Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades,
    Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades,
    Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades,
    Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades,
    Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades,
    Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades,
    Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades,
    Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades,
    Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades,
    Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades,
    King of Clubs, King of Diamonds, King of Hearts, King of Spades,
    Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades,
);
static SINGLE: [Card; 52] = [
    poker::card!(Two of Clubs), poker::card!(Two, Diamonds), poker::card!(Two of Hearts), poker::card!(Two, Spades),
    poker::card!(Three, Clubs), poker::card!(Three of Diamonds), poker::card!(Three, Hearts), poker::card!(Three of Spades),
    poker::card!(Four of Clubs), poker::card!(Four, Diamonds), poker::card!(Four of Hearts), poker::card!(Four, Spades),
    poker::card!(Five, Clubs), poker::card!(Five of Diamonds), poker::card!(Five, Hearts), poker::card!(Five of Spades),
    poker::card!(Six of Clubs), poker::card!(Six, Diamonds), poker::card!(Six of Hearts), poker::card!(Six, Spades),
    poker::card!(Seven, Clubs), poker::card!(Seven of Diamonds), poker::card!(Seven, Hearts), poker::card!(Seven of Spades),
    poker::card!(Eight of Clubs), poker::card!(Eight, Diamonds), poker::card!(Eight of Hearts), poker::card!(Eight, Spades),
    poker::card!(Nine, Clubs), poker::card!(Nine of Diamonds), poker::card!(Nine, Hearts), poker::card!(Nine of Spades),
    poker::card!(Ten of Clubs), poker::card!(Ten, Diamonds), poker::card!(Ten of Hearts), poker::card!(Ten, Spades),
    poker::card!(Jack, Clubs), poker::card!(Jack of Diamonds), poker::card!(Jack, Hearts), poker::card!(Jack of Spades),
    poker::card!(Queen of Clubs), poker::card!(Queen, Diamonds), poker::card!(Queen of Hearts), poker::card!(Queen, Spades),
    poker::card!(King, Clubs), poker::card!(King of Diamonds), poker::card!(King, Hearts), poker::card!(King of Spades),
    poker::card!(Ace of Clubs), poker::card!(Ace, Diamonds), poker::card!(Ace of Hearts), poker::card!(Ace, Spades),
];
const fn again(c: Card) -> Card { Card::new(c.rank(), c.suit()) }
const fn all_again() -> [Card; 52] {
    let mut t = OF;
    let mut i = 0;
    while i < 52 {
        t[i] = again(t[i]);
        i += 1;
    }
    t
}
const AGAIN: [Card; 52] = all_again();
/// what the compiler makes of the encoding
pub const INTEGERS: [i32; 52] = {
    let mut t = [0; 52];
    let mut i = 0;
    while i < 52 {
        t[i] = COMMA[i].unique_integer();
        i += 1;
    }
    t
};

pub const WAYS: u8 = 16;
/// Build the cards numbered `n` in one of the ways a caller may.
#[inline(never)]
pub fn make(way: u8, n: &[u8], ranks: &[poker::Rank], suits: &[poker::Suit], text: &[String]) -> Vec<Card> {
    let each = |f: &dyn Fn(usize) -> Card| (0..n.len()).map(f).collect::<Vec<Card>>();
    let chars = |i: usize| {
        let mut c = text[i].chars();
        (c.next().unwrap(), c.next().unwrap())
    };
    match way % WAYS {
        0 => each(&|i| Card::new(ranks[i], suits[i])),
        1 => each(&|i| COMMA[n[i] as usize]),
        2 => each(&|i| OF[n[i] as usize]),
        3 => each(&|i| SINGLE[n[i] as usize]),
        4 => each(&|i| AGAIN[n[i] as usize]),
        5 => each(&|i| Card::try_from_chars(chars(i).0, chars(i).1).unwrap()),
        6 => each(&|i| text[i].parse().unwrap()),
        7 => each(&|i| poker::card!(text[i].as_str()).unwrap()),
        8 => poker::cards!(text.join(" ")).try_collect().unwrap(),
        9 => Card::parse_to_iter(text).try_collect().unwrap(),
        10 => each(&|i| {
            use std::convert::TryFrom;
            Card::new(poker::Rank::try_from(chars(i).0).unwrap(), poker::Suit::try_from(chars(i).1).unwrap())
        }),
        11 => each(&|i| {
            let c = Card::new(ranks[i], suits[i]);
            c.rank_suit_string().parse().unwrap()
        }),
        12 => each(&|i| deck::generate().find(|c| c.rank() == ranks[i] && c.suit() == suits[i]).unwrap()),
        13 => {
            let k = n.len() / 2;
            let (a, b) = (each(&|i| COMMA[n[i] as usize]), each(&|i| Card::new(ranks[i], suits[i])));
            poker::box_cards!(a[..k], b[k..]).into_vec()
        }
        14 => {
            let k = n.len() / 3;
            let a = each(&|i| SINGLE[n[i] as usize]);
            let b: Box<[Card]> = each(&|i| again(OF[n[i] as usize])).into_boxed_slice();
            poker::box_cards!(a[..k], b[k..2 * k], [a[2 * k..].to_vec()].concat()).into_vec()
        }
        _ => {
            let mut a = each(&|i| Card::new(ranks[i], suits[i]));
            a.iter_mut().for_each(|c| *c = c.clone());
            a
        }
    }
}

/// All operators on one pair: what they say, in a fixed order.
#[inline(never)]
pub fn operators(a: Card, b: Card) -> ([bool; 6], std::cmp::Ordering, Option<std::cmp::Ordering>, Card, Card) {
    ([a < b, a <= b, a > b, a >= b, a == b, a != b], a.cmp(&b), a.partial_cmp(&b), a.max(b), a.min(b))
}
#[inline(never)]
pub fn rank_operators(a: poker::Rank, b: poker::Rank) -> ([bool; 6], std::cmp::Ordering, Option<std::cmp::Ordering>) {
    ([a < b, a <= b, a > b, a >= b, a == b, a != b], a.cmp(&b), a.partial_cmp(&b))
}
pub const SORTS: u8 = 10;
/// Put cards in order in one of the ways a caller may; the order is ascending.
#[inline(never)]
pub fn sort(how: u8, v: &mut Vec<Card>, hook: &dyn Hook) {
    use std::cmp::Reverse;
    use std::collections::{BTreeMap, BinaryHeap};
    match how % SORTS {
        0 => v.sort(),
        1 => v.sort_unstable(),
        2 => {
            let n = std::cell::Cell::new(0);
            v.sort_by(|a, b| {
                n.set(n.get() + 1);
                hook.at(n.get());
                a.cmp(b)
            })
        }
        3 => {
            let n = std::cell::Cell::new(0);
            v.sort_by(|a, b| {
                n.set(n.get() + 1);
                hook.at(n.get());
                a.partial_cmp(b).unwrap()
            })
        }
        4 => {
            v.reverse();
            v.sort_by_key(|c| Reverse(*c));
            v.reverse();
        }
        5 => *v = BinaryHeap::from(std::mem::take(v)).into_sorted_vec(),
        6 => {
            let mut h: BinaryHeap<Reverse<Card>> = v.drain(..).map(Reverse).collect();
            while let Some(Reverse(c)) = h.pop() {
                v.push(c);
            }
        }
        7 => {
            let mut m: BTreeMap<Card, Vec<Card>> = BTreeMap::new();
            for c in v.drain(..) {
                m.entry(c).or_default().push(c);
            }
            v.extend(m.into_values().flatten());
        }
        8 => {
            // insertion after all that are not greater
            let mut o: Vec<Card> = Vec::new();
            for c in v.drain(..) {
                let k = o.partition_point(|x| *x <= c);
                o.insert(k, c);
            }
            *v = o;
        }
        _ => {
            let mut o: Vec<Card> = Vec::new();
            for c in v.drain(..) {
                let k = o.iter().position(|x| x > &c).unwrap_or(o.len());
                o.insert(k, c);
            }
            *v = o;
        }
    }
}
/// which of the sorts keep cards of one rank in the order they came
pub const STABLE: [bool; SORTS as usize] = [true, false, true, true, true, false, false, true, true, true];
#[inline(never)]
pub fn extremes(v: &[Card]) -> (Option<Card>, Option<Card>) { (v.iter().copied().max(), v.iter().copied().min()) }
#[inline(never)]
pub fn lexical(a: &[Card], b: &[Card]) -> (std::cmp::Ordering, Option<std::cmp::Ordering>) { (a.cmp(b), a.partial_cmp(b)) }
#[inline(never)]
pub fn clamp(c: Card, lo: Card, hi: Card) -> Card { c.clamp(lo, hi) }

// ---------------------------------------------------------- long-running use

/// A small generator for arguments, and a caller's source of randomness.
pub struct Small(pub u64);
impl RngCore for Small {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xBF58476D1CE4E5B9);
        let z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB);
        z ^ z >> 31
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct Dies<'a>(&'a [Card], std::cell::Cell<u32>);
impl AsRef<[Card]> for Dies<'_> {
    fn as_ref(&self) -> &[Card] {
        self.1.set(self.1.get().wrapping_sub(1));
        if self.1.get() == 0 {
            std::panic::resume_unwind(Box::new(1u8));
        }
        self.0
    }
}
struct Full(usize);
impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}
/// evaluators made when there is no other
pub const ALONE: u8 = 11;
pub const SOAKS: u8 = 13;
/// `n` calls of one kind whose results are given up at once.
#[inline(never)]
pub fn soak(ev: Option<&Ev>, kind: u8, seed: u64, n: u32) -> u64 {
    use std::fmt::Write;
    let mut r = Small(seed);
    let mut sum = 0u64;
    let mut all = [Card::new(poker::Rank::Two, poker::Suit::Clubs); 52];
    use poker::{Rank::*, Suit::*};
    for (i, k) in [Two, Three, Four, Five, Six, Seven, Eight, Nine, Ten, Jack, Queen, King, Ace].into_iter().enumerate() {
        for (j, s) in [Clubs, Diamonds, Hearts, Spades].into_iter().enumerate() {
            all[i * 4 + j] = Card::new(k, s);
        }
    }
    let fixed = all;
    let mut hand = |r: &mut Small, n: usize| -> [Card; 12] {
        for i in 0..n {
            let j = i + r.next_u32() as usize % (52 - i);
            all.swap(i, j);
        }
        all[..12].try_into().unwrap()
    };
    let mut text = String::with_capacity(64);
    let none;
    let ev = match ev {
        Some(ev) => ev,
        None if kind % SOAKS == ALONE => {
            for _ in 0..n / 40 {
                sum += ev_new().evaluate(&fixed[..6]).is_ok() as u64;
            }
            return sum;
        }
        None => {
            none = ev_new();
            &none
        }
    };
    for i in 0..n {
        let k = if kind % SOAKS == SOAKS - 1 { (r.next_u32() % (SOAKS as u32 - 1)) as u8 } else { kind % SOAKS };
        match k {
            // a hand
            0 => {
                let n = 5 + (r.next_u32() % 3) as usize;
                let h = hand(&mut r, n);
                sum += ev.evaluate(&h[..n]).map_or(0, |e| e.is_pair() as u64);
            }
            // no hand
            1 => {
                let n = (r.next_u32() % 9) as usize;
                let mut h = hand(&mut r, 9);
                if n > 4 {
                    h[n - 1] = h[r.next_u32() as usize % (n - 1)];
                }
                text.clear();
                if let Err(e) = ev.evaluate(&h[..n]) {
                    let _ = write!(text, "{e}");
                }
                sum += text.len() as u64;
            }
            // a token, mostly a bad one
            2 => {
                text.clear();
                for _ in 0..1 + r.next_u32() % 3 {
                    text.push(char::from_u32(0x23 + r.next_u32() % 90).unwrap());
                }
                match text.parse::<Card>() {
                    Ok(_) => sum += 1,
                    Err(e) => sum += e.to_string().len() as u64,
                }
            }
            // a list of good tokens
            3 => {
                let h = hand(&mut r, 7);
                text.clear();
                for c in &h[..7] {
                    text.push_str(&c.rank_suit_string());
                    text.push(' ');
                }
                sum += poker::cards!(&text).try_collect::<Vec<_>>().map_or(0, |v| v.len() as u64);
            }
            4 => sum += deck::shuffled_with(&mut r).len() as u64,
            5 => sum += deck::shuffled().len() as u64,
            // results and cards in print
            6 => {
                let h = hand(&mut r, 5);
                text.clear();
                if let Ok(e) = ev.evaluate(&h[..5]) {
                    let _ = write!(text, "{e} {} {}", e.class(), h[0]);
                }
                sum += text.len() as u64;
            }
            // evaluators
            7 if i % 40 == 0 => {
                let e = ev_clone(ev);
                let f = if r.next_u32() % 4 == 0 { ev_new() } else { ev_clone(&e) };
                sum += ev_eq(&e, &f) as u64;
                sum += f.evaluate(&fixed[..6]).is_ok() as u64;
            }
            7 => {}
            // order
            8 => {
                let mut h = hand(&mut r, 9);
                h.sort();
                sum += (h[0] <= h[8]) as u64;
            }
            // caller code that panics or fails
            9 => {
                let h = hand(&mut r, 7);
                let d = Dies(&h[..7], std::cell::Cell::new(1 + r.next_u32() % 2));
                sum += std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.evaluate(&d))).is_err() as u64;
                let e = ev.evaluate([h[0], h[1], h[2], h[0], h[1]].as_slice());
                if let Err(e) = e {
                    sum += write!(Full((r.next_u32() % 150) as usize), "{e}").is_err() as u64;
                }
            }
            ALONE => {}
            // the parts of a deck
            _ => {
                let mut d = deck::generate();
                sum += d.nth((r.next_u32() % 53) as usize).is_some() as u64 + d.next().is_some() as u64;
            }
        }
    }
    sum
}
/// The same on `threads` threads which come and go.
#[inline(never)]
pub fn churn(ev: Option<&Ev>, kind: u8, seed: u64, n: u32, threads: u32) -> u64 {
    let mut sum = 0;
    for t in 0..threads {
        sum += std::thread::scope(|s| s.spawn(|| soak(ev, kind, seed + t as u64, n)).join().unwrap_or(0));
    }
    sum
}

pub const AGAINS: u8 = 18;
/// The same call `n` times. The number of the first whose outcome is not that
/// of the first call, counting from 1.
#[inline(never)]
pub fn repeat(ev: &Ev, kind: u8, cards: &[Card], bad: &str, seed: u64, n: u32) -> Option<u32> {
    use std::fmt::Write;
    #[inline(always)]
    fn same<T: PartialEq>(n: u32, mut f: impl FnMut() -> T) -> Option<u32> {
        let first = f();
        (2..=n).find(|_| f() != first)
    }
    let five = &cards[..5];
    let dup = [cards[0], cards[1], cards[2], cards[0], cards[3], cards[4]];
    let good = cards[0].rank_suit_string();
    let mut text = String::with_capacity(200);
    match kind % AGAINS {
        0 => same(n, || ev.evaluate(five)),
        1 => same(n, || ev.evaluate(cards)),
        2 => same(n, || ev.evaluate(&dup[..])),
        3 => same(n, || ev.evaluate(&cards[..3])),
        4 => same(n, || good.parse::<Card>()),
        5 => same(n, || bad.parse::<Card>()),
        6 => same(n, || deck::shuffled_with(&mut Small(seed))),
        7 => same(n, || deck::shuffled().iter().fold(0u64, |m, c| m | 1 << (c.unique_integer() >> 8 & 15) * 4 + c.suit() as i32)),
        8 => {
            let e = ev.evaluate(five);
            let d = ev.evaluate(&dup[..]);
            let b = bad.parse::<Card>();
            let mut k = 0;
            same(n - n % 4, || {
                let mut ok = true;
                for _ in 0..2 {
                    text.clear();
                    let _ = match k % 4 {
                        0 => e.as_ref().map(|e| write!(text, "{e} {}", e.class())).unwrap_or(Ok(())),
                        1 => write!(text, "{} {:?}", cards[0], cards[1].rank()),
                        2 => d.as_ref().map(|_| Ok(())).unwrap_or_else(|d| write!(text, "{d}")),
                        _ => b.as_ref().map(|_| Ok(())).unwrap_or_else(|b| write!(text, "{b}")),
                    };
                    let m = text.len();
                    ok &= m > 0 || k % 4 > 1;
                }
                k += 1;
                ok
            })
        }
        9 => same(n, || {
            let e = ev_clone(ev);
            e.evaluate(five)
        }),
        10 => same(n, || {
            let mut d = deck::generate();
            (d.nth((seed % 60) as usize), d.next(), d.count())
        }),
        11 => {
            let taken = std::cell::Cell::new(0u32);
            let src = std::iter::from_fn(|| {
                taken.set(taken.get() + 1);
                Some(if taken.get() % 3 == 0 { bad } else { &good })
            });
            let mut p = Card::parse_to_iter(src);
            (1..=n).find(|&i| {
                let r = Iterator::next(&mut p);
                let ok = matches!(&r, Some(r) if if i % 3 == 0 { r.is_err() } else { *r == Ok(cards[0]) });
                !ok || taken.get() != i
            })
        }
        12 => same(n, || {
            let mut v = [cards[0], cards[1], cards[2], cards[3], cards[4]];
            v.sort();
            (v, cards[0] < cards[1], cards[1].cmp(&cards[2]))
        }),
        13 => {
            let (r, s) = (cards[0].rank(), cards[0].suit());
            same(n, || {
                let c = Card::new(r, s);
                (c, c.unique_integer())
            })
        }
        14 => same(n, || Card::parse_to_iter([good.as_str(), bad]).try_collect::<Vec<_>>().is_err()),
        15 => same(n, || {
            let d = Dies(cards, std::cell::Cell::new(1));
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ev.evaluate(&d))).is_err()
        }),
        16 => {
            let e = ev.evaluate(&dup[..]);
            let mut k = 0;
            same(n, || {
                k += 1;
                let mut t = Full(k % 60);
                match &e {
                    Err(e) => write!(t, "{e}").is_err(),
                    Ok(e) => write!(t, "{e}").is_err(),
                }
            })
        }
        _ => same(n, || {
            let d = deck::shuffled();
            let e = deck::shuffled_with(&mut Small(seed));
            (d.len(), e)
        }),
    }
}
/// `n` evaluators (and handles to none) alive at the same time.
#[inline(never)]
pub fn hoard(ev: &Ev, n: u32, seed: u64, cards: &[Card]) -> Result<(), String> {
    let mut r = Small(seed);
    let want = ev.evaluate(cards);
    let mut all: Vec<Ev> = Vec::new();
    let check = |e: &Ev, i: usize| {
        if !ev_eq(e, ev) || ev_ne(e, ev) {
            return Err(format!("evaluator {i} of {n} alive together is not equal to the first"));
        }
        let got = e.evaluate(cards);
        if got != want {
            return Err(format!("evaluator {i} of {n} alive together answers {got:?}, the first {want:?}"));
        }
        Ok(())
    };
    let chain = r.next_u32() % 2 == 0;
    let fresh = if r.next_u32() % 4 == 0 { 3 } else { 40 };
    for i in 0..n as usize {
        let e = if n <= 70 && r.next_u32() % fresh == 0 {
            ev_new()
        } else if i == 0 || !chain && r.next_u32() % 2 == 0 {
            ev_clone(ev)
        } else {
            let k = if chain { i - 1 } else { r.next_u32() as usize % i };
            ev_clone(&all[k])
        };
        check(&e, i)?;
        all.push(e);
    }
    // their number goes up and down
    let mut news = 6;
    for i in 0..48 {
        match r.next_u32() % 16 {
            0..=6 if all.len() > 1 => {
                let k = r.next_u32() as usize % all.len();
                drop(all.swap_remove(k));
            }
            7..=13 => {
                let k = r.next_u32() as usize % all.len();
                let e = ev_clone(&all[k]);
                check(&e, i)?;
                all.push(e);
            }
            _ if news > 0 => {
                news -= 1;
                let e = ev_new();
                check(&e, i)?;
                all.push(e);
            }
            _ => {}
        }
    }
    // some are dropped, and all that are left go on
    for round in 0..3 {
        let m = all.len() / 3;
        for _ in 0..m {
            let k = r.next_u32() as usize % all.len();
            let e = all.swap_remove(k);
            drop(e);
        }
        check(ev, 0)?;
        for (i, e) in all.iter().enumerate() {
            if round == 2 || r.next_u32() % 8 == 0 {
                check(e, i)?;
            }
        }
    }
    drop(all);
    check(ev, 0)
}
