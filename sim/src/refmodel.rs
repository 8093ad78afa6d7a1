//! Executable reference model: what the rules of poker and the documentation
//! say, written without the library. Cards are numbers 0..52, rank * 4 + suit,
//! ranks 0 (two) to 12 (ace), suits in the order clubs, diamonds, hearts, spades.

use poker::{Card, EvalClass, Rank, Suit};

pub const RANKS: [Rank; 13] = [
    Rank::Two, Rank::Three, Rank::Four, Rank::Five, Rank::Six, Rank::Seven, Rank::Eight, Rank::Nine,
    Rank::Ten, Rank::Jack, Rank::Queen, Rank::King, Rank::Ace,
];
pub const SUITS: [Suit; 4] = [Suit::Clubs, Suit::Diamonds, Suit::Hearts, Suit::Spades];
pub const RANK_CH: [char; 13] = ['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A'];
pub const SUIT_CH: [char; 4] = ['c', 'd', 'h', 's'];
pub const SUIT_PRETTY: [char; 4] = ['\u{2663}', '\u{2666}', '\u{2665}', '\u{2660}'];
pub const NAME: [&str; 13] = [
    "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "jack", "queen", "king", "ace",
];
pub const NAMES: [&str; 13] = [
    "twos", "threes", "fours", "fives", "sixes", "sevens", "eights", "nines", "tens", "jacks", "queens", "kings",
    "aces",
];

pub fn card(c: u8) -> Card { Card::new(RANKS[(c / 4) as usize], SUITS[(c % 4) as usize]) }
pub fn cards(v: &[u8]) -> Vec<Card> { v.iter().map(|&c| card(c)).collect() }
pub fn idx(c: Card) -> u8 {
    let r = RANKS.iter().position(|&r| r == c.rank()).unwrap();
    let s = SUITS.iter().position(|&s| s == c.suit()).unwrap();
    (r * 4 + s) as u8
}
pub fn text(c: u8) -> String {
    let mut s = String::new();
    s.push(RANK_CH[(c / 4) as usize]);
    s.push(SUIT_CH[(c % 4) as usize]);
    s
}
pub fn texts(v: &[u8]) -> String { v.iter().map(|&c| text(c)).collect::<Vec<_>>().join(" ") }

/// Strength of the best five-card hand: category in the top nibble (8 straight
/// flush .. 0 high card) and up to five rank nibbles.
pub type Key = u32;

fn straight_high(bits: u32) -> Option<u32> {
    for hi in (4..13).rev() {
        if (bits >> (hi - 4)) & 0x1F == 0x1F {
            return Some(hi);
        }
    }
    if bits & 0x100F == 0x100F { Some(3) } else { None }
}
fn key(cat: u32, r: &[u32]) -> Key {
    let mut k = cat << 20;
    for (i, &x) in r.iter().enumerate() {
        k |= x << (16 - 4 * i);
    }
    k
}
fn top(bits: u32, n: usize) -> Vec<u32> { (0..13).rev().filter(|&r| bits >> r & 1 == 1).take(n).collect() }

/// `mask`: set of at least five distinct cards.
pub fn strength(mask: u64) -> Key {
    let mut suit = [0u32; 4];
    let mut cnt = [0u32; 13];
    let mut m = mask;
    while m != 0 {
        let c = m.trailing_zeros();
        m &= m - 1;
        suit[(c % 4) as usize] |= 1 << (c / 4);
        cnt[(c / 4) as usize] += 1;
    }
    let all = suit[0] | suit[1] | suit[2] | suit[3];
    let of = |n: u32| (0..13u32).filter(|&r| cnt[r as usize] >= n).fold(0u32, |b, r| b | 1 << r);
    if let Some(h) = suit.iter().filter_map(|&s| straight_high(s)).max() {
        return key(8, &[h]);
    }
    let four = of(4);
    if four != 0 {
        let q = top(four, 1)[0];
        return key(7, &[q, top(all & !(1 << q), 1)[0]]);
    }
    let three = of(3);
    let two = of(2);
    if three != 0 {
        let t = top(three, 1)[0];
        let rest = two & !(1 << t);
        if rest != 0 {
            return key(6, &[t, top(rest, 1)[0]]);
        }
    }
    if let Some(f) = suit.iter().filter(|s| s.count_ones() >= 5).map(|&s| key(5, &top(s, 5))).max() {
        return f;
    }
    if let Some(h) = straight_high(all) {
        return key(4, &[h]);
    }
    if three != 0 {
        let t = top(three, 1)[0];
        let k = top(all & !(1 << t), 2);
        return key(3, &[t, k[0], k[1]]);
    }
    let p = top(two, 2);
    if p.len() == 2 {
        let k = top(all & !(1 << p[0] | 1 << p[1]), 1);
        return key(2, &[p[0], p[1], k[0]]);
    }
    if p.len() == 1 {
        let k = top(all & !(1 << p[0]), 3);
        return key(1, &[p[0], k[0], k[1], k[2]]);
    }
    key(0, &top(all, 5))
}

pub fn cat(k: Key) -> u32 { k >> 20 }
pub fn nib(k: Key, i: usize) -> usize { (k >> (16 - 4 * i) & 0xF) as usize }

pub fn class(k: Key) -> EvalClass {
    let r = |i: usize| RANKS[nib(k, i)];
    match cat(k) {
        8 => EvalClass::StraightFlush { high_rank: r(0) },
        7 => EvalClass::FourOfAKind { quads: r(0) },
        6 => EvalClass::FullHouse { trips: r(0), pair: r(1) },
        5 => EvalClass::Flush { high_rank: r(0) },
        4 => EvalClass::Straight { high_rank: r(0) },
        3 => EvalClass::ThreeOfAKind { trips: r(0) },
        2 => EvalClass::TwoPair { first_pair: r(0), second_pair: r(1) },
        1 => EvalClass::Pair { pair: r(0) },
        _ => EvalClass::HighCard { high_rank: r(0) },
    }
}
/// The name of a hand, as documented.
pub fn name(k: Key) -> String {
    let (a, b) = (nib(k, 0), nib(k, 1));
    match cat(k) {
        8 if a == 12 => "Royal flush".into(),
        8 => format!("Straight flush, {}-high", NAME[a]),
        7 => format!("Four of a kind, {}", NAMES[a]),
        6 => format!("Full house, {} over {}", NAMES[a], NAMES[b]),
        5 => format!("Flush, {}-high", NAME[a]),
        4 => format!("Straight, {}-high", NAME[a]),
        3 => format!("Three of a kind, {}", NAMES[a]),
        2 => format!("Two pair, {} and {}", NAMES[a], NAMES[b]),
        1 => format!("Pair, {}", NAMES[a]),
        _ => format!("High card, {}", NAME[a]),
    }
}
/// is_high_card .. is_straight_flush, is_royal_flush
pub fn predicates(k: Key) -> [bool; 10] {
    let mut p = [false; 10];
    p[cat(k) as usize] = true;
    p[9] = cat(k) == 8 && nib(k, 0) == 12;
    p
}

/// All strengths of five-card hands, worst first, with one hand of each.
pub struct Ladder {
    pub keys: Vec<Key>,
    pub hands: Vec<[u8; 5]>,
}
pub const CLASSES: usize = 7462;

impl Ladder {
    pub fn new() -> Self {
        let mut v: Vec<(Key, [u8; 5])> = Vec::new();
        // every multiset of ranks of size five with at most four equal, off-suit
        for a in 0..13u8 {
            for b in a..13 {
                for c in b..13 {
                    for d in c..13 {
                        for e in d..13 {
                            if a == e {
                                continue;
                            }
                            let rs = [a, b, c, d, e];
                            let mut used = [0u8; 13];
                            let mut h = [0u8; 5];
                            for (i, &r) in rs.iter().enumerate() {
                                let s = used[r as usize];
                                used[r as usize] += 1;
                                h[i] = r * 4 + s;
                            }
                            let distinct = a < b && b < c && c < d && d < e;
                            if distinct {
                                let mut f = h;
                                v.push((strength(mask(&f)), f)); // all clubs
                                f[0] += 1; // one diamond: off-suit
                                v.push((strength(mask(&f)), f));
                            } else {
                                v.push((strength(mask(&h)), h));
                            }
                        }
                    }
                }
            }
        }
        v.sort();
        v.dedup_by_key(|x| x.0);
        assert_eq!(v.len(), CLASSES);
        Ladder { keys: v.iter().map(|x| x.0).collect(), hands: v.iter().map(|x| x.1).collect() }
    }
    pub fn pos(&self, k: Key) -> usize { self.keys.binary_search(&k).expect("unknown strength") }
}
pub fn mask(h: &[u8]) -> u64 { h.iter().fold(0, |m, &c| m | 1 << c) }
pub fn unmask(mut m: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(m.count_ones() as usize);
    while m != 0 {
        v.push(m.trailing_zeros() as u8);
        m &= m - 1;
    }
    v
}
pub fn has_dup(h: &[u8]) -> bool {
    let mut m = 0u64;
    h.iter().any(|&c| {
        let d = m >> c & 1 == 1;
        m |= 1 << c;
        d
    })
}

/// What evaluating must give. `Either`: too few cards *and* a repeated card.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Ok(Key),
    Few(usize),
    Dup(Vec<u8>),
    Either(Vec<u8>),
}
pub fn expect(h: &[u8]) -> Expect {
    match (h.len() < 5, has_dup(h)) {
        (true, true) => Expect::Either(h.to_vec()),
        (true, false) => Expect::Few(h.len()),
        (false, true) => Expect::Dup(h.to_vec()),
        (false, false) => Expect::Ok(strength(mask(h))),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    Len,
    Rank(char),
    Suit(char),
}
pub fn parse(s: &str) -> Result<u8, PErr> {
    let ch: Vec<char> = s.chars().collect();
    if ch.len() != 2 {
        return Err(PErr::Len);
    }
    parse_chars(ch[0], ch[1])
}
pub fn parse_chars(a: char, b: char) -> Result<u8, PErr> {
    let r = RANK_CH.iter().position(|&c| c == a).ok_or(PErr::Rank(a))?;
    let s = SUIT_CH.iter().position(|&c| c == b).ok_or(PErr::Suit(b))?;
    Ok((r * 4 + s) as u8)
}
pub fn parse_msg(s: &str, e: &PErr) -> String {
    match e {
        PErr::Len => format!(
            "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
            s,
            s.chars().count()
        ),
        PErr::Rank(c) => format!(
            "Error parsing input '{s}' as a Card: Invalid rank character '{c}', expected one of [23456789TJQKA]"
        ),
        PErr::Suit(c) => {
            format!("Error parsing input '{s}' as a Card: Invalid suit character '{c}', expected one of [chsd]")
        }
    }
}
pub fn size_msg(n: usize) -> String {
    format!("Cannot evaluate a poker hand with a set of less than 5 cards. Number of cards received: {n}")
}
pub const DUP_MSG: &str =
    "Cannot evaluate a poker hand with a set of cards that are not unique. Cards duplicated at least once: ";
/// `text` is the message of a duplicate-cards error for exactly these cards.
pub fn dup_msg_ok(text: &str, h: &[u8]) -> bool {
    let Some(rest) = text.strip_prefix(DUP_MSG) else { return false };
    let mut got: Vec<&str> = rest.split(' ').collect();
    got.sort();
    let mut want: Vec<String> =
        (0..52u8).filter(|&c| h.iter().filter(|&&x| x == c).count() > 1).map(text_of).collect();
    want.sort();
    got == want.iter().map(|s| s.as_str()).collect::<Vec<_>>()
}
fn text_of(c: u8) -> String { text(c) }

/// Cross-check of `strength` by brute force, run by `sim selftest`.
pub fn selftest() -> Result<(), String> {
    use crate::rng::Rng;
    let five = |h: &[u8]| -> (u32, Vec<u32>) {
        // straight from the rule book: count, group, compare
        let mut r: Vec<u32> = h.iter().map(|c| (c / 4) as u32).collect();
        r.sort();
        r.reverse();
        let flush = h.iter().all(|c| c % 4 == h[0] % 4);
        let mut groups: Vec<(u32, u32)> = Vec::new();
        for &x in &r {
            match groups.iter_mut().find(|g| g.1 == x) {
                Some(g) => g.0 += 1,
                None => groups.push((1, x)),
            }
        }
        groups.sort();
        groups.reverse();
        let shape: Vec<u32> = groups.iter().map(|g| g.0).collect();
        let by: Vec<u32> = groups.iter().map(|g| g.1).collect();
        let straight = if shape.len() == 5 && r[0] - r[4] == 4 {
            Some(r[0])
        } else if r == [12, 3, 2, 1, 0] {
            Some(3)
        } else {
            None
        };
        match (straight, flush) {
            (Some(s), true) => return (8, vec![s]),
            (Some(s), false) => return (4, vec![s]),
            (None, true) => return (5, by),
            _ => {}
        }
        match shape.as_slice() {
            [4, 1] => (7, by),
            [3, 2] => (6, by),
            [3, 1, 1] => (3, by),
            [2, 2, 1] => (2, by),
            [2, 1, 1, 1] => (1, by),
            _ => (0, by),
        }
    };
    let best = |h: &[u8]| {
        let mut b: Option<(u32, Vec<u32>)> = None;
        let n = h.len();
        for i in 0..n { for j in i + 1..n { for k in j + 1..n { for l in k + 1..n { for m in l + 1..n {
            let x = five(&[h[i], h[j], h[k], h[l], h[m]]);
            if b.as_ref().map_or(true, |b| x > *b) { b = Some(x) }
        }}}}}
        let (c, r) = b.unwrap();
        key(c, &r)
    };
    let lad = Ladder::new();
    for (i, h) in lad.hands.iter().enumerate() {
        if best(h) != lad.keys[i] {
            return Err(format!("five-card model wrong on {}", texts(h)));
        }
    }
    let mut rng = Rng::new(7, 7, 7);
    for _ in 0..60_000 {
        let mut d: Vec<u8> = (0..52).collect();
        rng.shuffle(&mut d);
        let n = 5 + rng.us(7);
        // bias to few suits / ranks so that every category appears
        if rng.chance(500) {
            let keep = 1 + rng.us(3);
            d.sort_by_key(|c| ((c % 4) as usize >= keep) as u8);
            let m = 13 * keep;
            rng.shuffle(&mut d[..m]);
        } else if rng.chance(500) {
            let lo = rng.us(9) as u8;
            d.sort_by_key(|c| (c / 4 < lo || c / 4 > lo + 4) as u8);
            rng.shuffle(&mut d[..20]);
        }
        if strength(mask(&d[..n])) != best(&d[..n]) {
            return Err(format!("model wrong on {}", texts(&d[..n])));
        }
    }
    Ok(())
}
