//! Fairness of the game's deals, judged over many sessions.
use serde_json::{json, Value};

use crate::{oracle::payout, refmodel as rm};

/// One round as it was shown.
#[derive(Clone, Debug, PartialEq)]
pub struct Round {
    pub wager: u128,
    pub credits: u128,
    pub first: Vec<u8>,
    pub swaps: Vec<usize>,
    pub last: Vec<u8>,
}

const NB: usize = 14;
const BUCKET: [&str; NB] = [
    "all rounds", "first round of a session", "later rounds", "highest wager", "lower wagers", "after a won round", "after a lost round",
    "after nothing was swapped", "after everything was swapped", "with over 100 credits", "with at most 40 credits", "from round 20 on",
    "faulty entropy calls", "at a terminal",
];
/// All counters, so that samples are added word by word.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Bucket {
    n: u64,
    first: [[u64; 52]; 5],
    /// a drawn card's place among the 47 cards not in the first hand
    drawn: [[u64; 47]; 5],
    falls: u64,
    pairs: u64,
    /// cards seen again 1, 2 and 3 rounds later, by how many were shown
    again: [[[u64; 6]; 11]; 3],
    /// a card of the last hand, by its place, comes at a place of the next one
    moved: [[u64; 5]; 5],
    moves: u64,
    class: [u64; 9],
    higher: [[u64; 5]; 5],
    suited: [[u64; 5]; 5],
    wins: [u64; 3],
    wins_due: [u64; 3],
    wins_var: [u64; 3],
    /// cards swapped away that came back at once
    back: u64,
    back_due: u64,
    back_var: u64,
}
#[repr(C)]
pub struct Deals {
    b: [Bucket; NB],
    pub sessions: u64,
    pub repeats: u64,
}
const MILLION: f64 = 1e6;

fn choose(n: u64, k: u64) -> f64 { (0..k).fold(1.0, |a, i| a * (n.saturating_sub(i)) as f64 / (i + 1) as f64) }
fn class(h: &[u8]) -> rm::Key { rm::strength(rm::mask(h)) }
fn good(h: &[u8]) -> [bool; 3] {
    let k = class(h);
    let p = payout(1, k);
    [p > 0, p >= 2, p >= 3]
}

impl Deals {
    /// Take in one session.
    pub fn add(&mut self, rounds: &[Round], faulty: bool, mode: u32, hashes: &mut Vec<u64>) {
        self.sessions += 1;
        let mut seen = std::collections::HashSet::new();
        for (i, r) in rounds.iter().enumerate() {
            if !seen.insert(r.first.clone()) {
                self.repeats += 1;
            }
            let before = i.checked_sub(1).map(|i| &rounds[i]);
            let won = before.map(|b| payout(b.wager, class(&b.last)) > 0);
            let on = [
                true,
                i == 0,
                i > 0,
                r.wager == 5,
                r.wager < 5,
                won == Some(true),
                won == Some(false),
                before.map_or(false, |b| b.swaps.is_empty()),
                before.map_or(false, |b| b.swaps.len() == 5),
                r.credits > 100,
                r.credits <= 40,
                i >= 20,
                faulty,
                mode == 2,
            ];
            let back: Vec<&Round> = (1..=3).filter_map(|k| i.checked_sub(k)).map(|i| &rounds[i]).collect();
            let due = due(r);
            for (k, b) in self.b.iter_mut().enumerate() {
                if on[k] {
                    b.round(r, &back, due);
                }
            }
        }
        if rounds.len() >= 2 {
            let h = rounds[..2].iter().flat_map(|r| &r.first).fold(7u64, |h, &c| crate::rng::mix64(h.wrapping_mul(53).wrapping_add(c as u64 + 1)));
            hashes.push(h);
        }
    }
    pub fn merge(&mut self, o: &Deals) {
        let n = std::mem::size_of::<Deals>() / 8;
        unsafe {
            let a = std::slice::from_raw_parts_mut(self as *mut Deals as *mut u64, n);
            let b = std::slice::from_raw_parts(o as *const Deals as *const u64, n);
            for (x, y) in a.iter_mut().zip(b) {
                *x += y;
            }
        }
    }
    pub fn judge(&self, same_start: u64) -> (Option<(String, String)>, Value) {
        let mut found: Option<(String, String)> = None;
        let mut bad = |c: &str, d: String| {
            if found.is_none() {
                found = Some((c.into(), d));
            }
        };
        if same_start > 1 {
            bad("repeated-games", format!("{same_start} of {} sessions dealt the same as another in their first two rounds", self.sessions));
        }
        if self.repeats > 3 {
            bad("repeated-hands", format!("{} times a hand was dealt twice, in the same order, within a session", self.repeats));
        }
        let mut tab = vec![];
        for (name, b) in BUCKET.iter().zip(&self.b) {
            let mut row = vec![("rounds".to_string(), json!(b.n))];
            let mut test = |what: &str, z: f64, limit: f64| {
                row.push((what.to_string(), json!((z * 100.0).round() / 100.0)));
                if z.abs() > limit {
                    bad("unfair-deals", format!("{name}: {what} off by {z:.1} standard deviations over {} rounds", b.n));
                }
            };
            let n = b.n as f64;
            if b.n < 1000 {
                tab.push((name.to_string(), Value::Object(row.into_iter().collect())));
                continue;
            }
            let mut x = 0.0;
            let mut w = 0.0f64;
            for p in &b.first {
                for &c in p {
                    x += (c as f64 - n / 52.0).powi(2) / (n / 52.0);
                    w = far(w, (c as f64 - n / 52.0) / (n / 52.0).sqrt());
                }
            }
            test("card dealt at place", chi(x, 255.0), 7.5);
            test("card dealt at place, worst", w, 8.0);
            let (mut x, mut df) = (0.0, 0.0);
            for p in &b.drawn {
                let m: u64 = p.iter().sum();
                if m > 1000 {
                    let e = m as f64 / 47.0;
                    x += p.iter().map(|&c| (c as f64 - e).powi(2) / e).sum::<f64>();
                    df += 46.0;
                }
            }
            if df > 0.0 {
                test("card drawn", chi(x, df), 7.5);
            }
            if b.pairs > 200 {
                let m = b.pairs as f64;
                test("order of drawn cards", (b.falls as f64 - m / 2.0) / (m / 4.0).sqrt(), 7.5);
            }
            for (lag, t) in b.again.iter().enumerate() {
                let (mut x, mut df) = (0.0, 0.0);
                let (mut d, mut v) = (0.0, 0.0);
                for (s, h) in t.iter().enumerate() {
                    let m: u64 = h.iter().sum();
                    let p = |k: u64| choose(s as u64, k) * choose(52 - s as u64, 5 - k) / choose(52, 5);
                    if m < 300 {
                        continue;
                    }
                    // more than two are counted together
                    let hi = 1.0 - p(0) - p(1);
                    for (k, q) in [(0, p(0)), (1, p(1)), (2, hi)] {
                        let o = if k == 2 { h[2..].iter().sum::<u64>() } else { h[k] } as f64;
                        x += (o - m as f64 * q).powi(2) / (m as f64 * q);
                    }
                    df += 2.0;
                    let s = s as f64;
                    let mean = 5.0 * s / 52.0;
                    d += h.iter().enumerate().map(|(k, &c)| k as f64 * c as f64).sum::<f64>() - m as f64 * mean;
                    v += m as f64 * mean * (1.0 - s / 52.0) * 47.0 / 51.0;
                }
                if df > 0.0 {
                    test(["cards seen again", "cards seen again after two rounds", "cards seen again after three rounds"][lag], d / v.sqrt(), 7.0);
                    test(["spread of cards seen again", "the same after two rounds", "the same after three rounds"][lag], chi(x, df), 7.5);
                }
            }
            if b.moves > 3000 {
                let e = b.moves as f64 / 52.0;
                let w = b.moved.iter().flatten().fold(0.0, |w, &c| far(w, (c as f64 - e) / e.sqrt()));
                test("place to place in the next round", w, 8.0);
            }
            let ways = [1302540.0, 1098240.0, 123552.0, 54912.0, 10200.0, 5108.0, 3744.0, 624.0, 40.0];
            let (mut x, mut df, mut rest, mut rest_p) = (0.0, -1.0, 0.0, 0.0);
            for (&c, w) in b.class.iter().zip(ways) {
                let e = n * w / 2598960.0;
                if e < 30.0 {
                    (rest, rest_p) = (rest + c as f64, rest_p + e);
                } else {
                    x += (c as f64 - e).powi(2) / e;
                    df += 1.0;
                }
            }
            if rest_p > 10.0 {
                x += (rest - rest_p).powi(2) / rest_p;
                df += 1.0;
            }
            test("classes of the hands dealt", chi(x, df), 7.5);
            let z = |c: u64, p: f64| (c as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
            let (mut w, mut s) = (0.0, 0.0);
            for i in 0..5 {
                for j in 0..i {
                    w = far(w, z(b.higher[j][i], 24.0 / 51.0));
                    s = far(s, z(b.suited[j][i], 12.0 / 51.0));
                }
            }
            test("order of ranks within a hand, worst pair", w, 8.0);
            test("equal suits within a hand, worst pair", s, 8.0);
            for (i, what) in ["winning hands after a swap", "double winnings after a swap", "triple winnings after a swap"].iter().enumerate() {
                let var = b.wins_var[i] as f64 / MILLION;
                if var > 25.0 {
                    test(what, (b.wins[i] as f64 - b.wins_due[i] as f64 / MILLION) / var.sqrt(), 7.5);
                }
            }
            let var = b.back_var as f64 / MILLION;
            if var > 25.0 {
                // never is fine too
                let z = (b.back as f64 - b.back_due as f64 / MILLION) / var.sqrt();
                test("swapped cards that come back", z.max(0.0), 7.0);
            }
            tab.push((name.to_string(), Value::Object(row.into_iter().collect())));
        }
        let mut v = Value::Object(tab.into_iter().collect());
        v["sessions"] = json!(self.sessions);
        v["sessions that begin alike"] = json!(same_start);
        v["hands dealt again within a session"] = json!(self.repeats);
        (found, v)
    }
}
fn far(a: f64, b: f64) -> f64 { if b.abs() > a.abs() { b } else { a } }
fn chi(x: f64, df: f64) -> f64 {
    let a = 2.0 / (9.0 * df);
    ((x / df).cbrt() - (1.0 - a)) / a.sqrt()
}
/// Cards drawn, and where: those not of the first hand.
fn drawn(r: &Round) -> Vec<usize> { (0..5).filter(|&i| r.last[i] != r.first[i]).collect() }
/// Chance in a million that the drawn cards win, given those kept, if all cards
/// not of the first hand are equally likely.
fn due(r: &Round) -> Option<[u64; 3]> {
    let at = drawn(r);
    if at.is_empty() || at.len() > 3 || at.iter().any(|&i| r.first.contains(&r.last[i])) {
        return None;
    }
    if at.len() == 3 && r.first.iter().map(|&c| c as u32).sum::<u32>() % 4 > 0 {
        return None; // a share of them will do
    }
    let rest: Vec<u8> = (0..52).filter(|c| !r.first.contains(c)).collect();
    let mut h = r.first.clone();
    let mut n = 0u64;
    let mut won = [0u64; 3];
    let mut count = |h: &[u8]| {
        n += 1;
        for (w, g) in won.iter_mut().zip(good(h)) {
            *w += g as u64;
        }
    };
    for a in 0..47 {
        h[at[0]] = rest[a];
        if at.len() == 1 {
            count(&h);
            continue;
        }
        for b in 0..a {
            h[at[1]] = rest[b];
            if at.len() == 2 {
                count(&h);
                continue;
            }
            for c in 0..b {
                h[at[2]] = rest[c];
                count(&h);
            }
        }
    }
    Some(won.map(|w| w * 1_000_000 / n))
}
impl Bucket {
    fn round(&mut self, r: &Round, back: &[&Round], due: Option<[u64; 3]>) {
        self.n += 1;
        for (i, &c) in r.first.iter().enumerate() {
            self.first[i][c as usize] += 1;
            for (j, &d) in r.first[..i].iter().enumerate() {
                self.higher[j][i] += (d / 4 > c / 4) as u64;
                self.suited[j][i] += (d % 4 == c % 4) as u64;
            }
        }
        self.class[rm::cat(class(&r.first)) as usize] += 1;
        let at: Vec<usize> = drawn(r).into_iter().filter(|&i| !r.first.contains(&r.last[i])).collect();
        let place = |c: u8| c as usize - r.first.iter().filter(|&&x| x < c).count();
        for (k, &i) in at.iter().enumerate() {
            self.drawn[k][place(r.last[i])] += 1;
            if k > 0 {
                self.pairs += 1;
                self.falls += (r.last[at[k - 1]] > r.last[i]) as u64;
            }
        }
        for (lag, b) in back.iter().enumerate() {
            let mut shown = b.first.clone();
            shown.extend(b.last.iter().filter(|c| !b.first.contains(c)));
            self.again[lag][shown.len()][r.first.iter().filter(|c| shown.contains(c)).count()] += 1;
        }
        if let Some(b) = back.first() {
            self.moves += 1;
            for (i, c) in b.last.iter().enumerate() {
                if let Some(j) = r.first.iter().position(|d| d == c) {
                    self.moved[i][j] += 1;
                }
            }
        }
        if !r.swaps.is_empty() {
            let given: Vec<u8> = r.swaps.iter().map(|&i| r.first[i]).collect();
            self.back += r.swaps.iter().filter(|&&i| given.contains(&r.last[i])).count() as u64;
            let (s, n) = (given.len() as f64, 47.0 + given.len() as f64);
            self.back_due += (s * s / n * MILLION) as u64;
            self.back_var += (s * s / n * (1.0 - s / n) * (n - s) / (n - 1.0) * MILLION) as u64;
        }
        if let Some(p) = due {
            let got = good(&r.last);
            for i in 0..3 {
                self.wins[i] += got[i] as u64;
                self.wins_due[i] += p[i];
                self.wins_var[i] += p[i] * (1_000_000 - p[i]) / 1_000_000;
            }
        }
    }
}
