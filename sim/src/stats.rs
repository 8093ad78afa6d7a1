//! Fairness of shuffles, judged over the decks of many simulated runs.
use serde_json::{json, Value};

use crate::rng::mix64;

pub const MAXHASH: usize = 6_000_000;
const N: usize = 52;

/// One sample: decks of one origin (given or built-in source, first of their
/// thread or later ones).
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Sample {
    n: u64,
    succ: u64,
    pos: [[u64; N]; N],
    adj: [[u64; N]; N],
    before: [[u64; N]; N],
    trans: [[u64; N]; N],
    first2: [[u64; N]; N],
    seam: [[u64; N]; N],
    odd: u64,
    cycles: u64,
    desc: u64,
    desc2: u64,
    fixed: [u64; 8],
    kept: [u64; 8],
    near_gen: u64,
    near_prev: u64,
    /// classes of the hands a player would be dealt
    hands: [[u64; 9]; HANDS],
    /// cards of each suit among the first thirteen
    suits: [[u64; 14]; 4],
}
const HANDS: usize = 13;
/// The first to the tenth five, the last five, and two players in turn.
fn dealt(d: &[u8], k: usize) -> [u8; 5] {
    std::array::from_fn(|i| match k {
        0..=9 => d[5 * k + i],
        10 => d[47 + i],
        _ => d[2 * i + k - 11],
    })
}
/// high card, pair, two pairs, three, straight, flush, full house, four, straight flush
fn class(h: [u8; 5]) -> usize {
    let mut ranks = 0u32;
    let mut n = [0u8; 13];
    let mut same = 0;
    for c in h {
        ranks |= 1 << (c / 4);
        same += n[(c / 4) as usize];
        n[(c / 4) as usize] += 1;
    }
    match same {
        0 => {
            let flush = h.iter().all(|c| c % 4 == h[0] % 4);
            let run = ranks >> ranks.trailing_zeros() == 0b11111 || ranks == 0b1_0000_0000_1111;
            [0, 4, 5, 8][run as usize + 2 * flush as usize]
        }
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 6,
        _ => 7,
    }
}
#[repr(C)]
pub struct Tally {
    s: [Sample; 4],
    pub nhash: u64,
    gen: [u8; N],
    has_gen: u8,
}

pub fn duplicates(counts: &[u64], all: &[u64]) -> u64 {
    let mut v: Vec<u64> = Vec::new();
    for (k, &c) in counts.iter().enumerate() {
        v.extend(&all[k * MAXHASH..k * MAXHASH + c as usize]);
    }
    v.sort_unstable();
    v.windows(2).filter(|p| p[0] == p[1]).count() as u64
}

impl Tally {
    /// Take in what one run dealt.
    pub fn add(&mut self, mut b: &[u8], hashes: &mut [u64]) {
        while b.len() >= 5 {
            let kind = b[0];
            let n = u32::from_le_bytes(b[1..5].try_into().unwrap()) as usize;
            b = &b[5..];
            if b.len() < n * N {
                break;
            }
            if kind == 2 {
                self.gen.copy_from_slice(&b[..N]);
                self.has_gen = 1;
                b = &b[n * N..];
                continue;
            }
            let mut prev: Option<&[u8]> = None;
            for d in b[..n * N].chunks(N) {
                let k = (kind as usize & 1) * 2 + prev.is_some() as usize;
                let gen = self.gen;
                self.s[k].deck(d, prev, &gen, self.has_gen == 1);
                prev = Some(d);
                let h = d.iter().fold(kind as u64, |h, &c| mix64(h.wrapping_mul(53).wrapping_add(c as u64 + 1)));
                if (self.nhash as usize) < hashes.len() {
                    hashes[self.nhash as usize] = h;
                    self.nhash += 1;
                }
            }
            b = &b[n * N..];
        }
    }
    pub fn merge(&mut self, o: &Tally) {
        // everything in a sample is a counter
        let words = std::mem::size_of::<Sample>() / 8;
        for k in 0..4 {
            unsafe {
                let a = std::slice::from_raw_parts_mut(&mut self.s[k] as *mut Sample as *mut u64, words);
                let b = std::slice::from_raw_parts(&o.s[k] as *const Sample as *const u64, words);
                for (x, y) in a.iter_mut().zip(b) {
                    *x += y;
                }
            }
        }
        self.nhash += o.nhash;
        self.has_gen |= o.has_gen;
    }
    pub fn judge(&self, dups: u64) -> (Option<(String, String)>, Value) {
        let mut found: Option<(String, String)> = None;
        let mut bad = |c: &str, d: String| {
            if found.is_none() {
                found = Some((c.into(), d));
            }
        };
        let mut tab = Vec::new();
        if dups > 0 {
            bad("repeated-decks", format!("{dups} decks were dealt more than once among {}", self.nhash));
        }
        let names = ["built-in source, first deck of a thread", "built-in source, later decks", "given source, first deck of a thread", "given source, later decks"];
        let mut samples: Vec<(String, Sample)> = names.iter().map(|n| n.to_string()).zip(self.s.iter().copied()).collect();
        for (k, name) in ["built-in source", "given source"].iter().enumerate() {
            let mut t = self.s[2 * k];
            let words = std::mem::size_of::<Sample>() / 8;
            unsafe {
                let a = std::slice::from_raw_parts_mut(&mut t as *mut Sample as *mut u64, words);
                let b = std::slice::from_raw_parts(&self.s[2 * k + 1] as *const Sample as *const u64, words);
                for (x, y) in a.iter_mut().zip(b) {
                    *x += y;
                }
            }
            samples.push((name.to_string(), t));
        }
        for (name, s) in &samples {
            let mut row = vec![("decks".to_string(), json!(s.n))];
            if s.near_gen > 0 {
                bad("unshuffled", format!("{name}: {} decks nearly in the generated order", s.near_gen));
            }
            if s.near_prev > 0 {
                bad("decks-repeat", format!("{name}: {} decks nearly the same as the one before", s.near_prev));
            }
            let mut test = |what: &str, z: f64, limit: f64| {
                row.push((what.to_string(), json!((z * 100.0).round() / 100.0)));
                if z.abs() > limit {
                    bad("unfair", format!("{name}: {what} off by {z:.1} standard deviations over {} decks", s.n));
                }
            };
            let nn = s.n as f64;
            if s.n >= 1500 {
                test("card in position", chi(&s.pos, nn / 52.0, true, 51.0 / 52.0, 2601.0), 7.5);
                test("card in position, worst cell", worst(&s.pos, nn, 1.0 / 52.0, true), 8.5);
                test("card after card", chi(&s.adj, nn / 52.0, false, 1.0, 2601.0), 9.0);
                test("card after card, worst cell", worst(&s.adj, nn, 1.0 / 52.0, false), 8.5);
                test("card before card, worst pair", worst(&s.before, nn, 0.5, false), 8.0);
                test("odd permutations", (s.odd as f64 - nn / 2.0) / (nn / 4.0).sqrt(), 7.5);
                let (mut m, mut v) = (0.0, 0.0);
                for i in 1..=52 {
                    let p = 1.0 / i as f64;
                    m += p;
                    v += p - p * p;
                }
                test("cycles", (s.cycles as f64 - nn * m) / (nn * v).sqrt(), 7.5);
                test("descents", (s.desc as f64 - nn * 25.5) / (nn * 53.0 / 12.0).sqrt(), 7.5);
                let var = 53.0 / 12.0;
                let dv = s.desc2 as f64 - 51.0 * s.desc as f64 + nn * 25.5 * 25.5; // sum of (d - 25.5)^2
                test("spread of descents", (dv - nn * var) / (nn * 2.2 * var * var).sqrt(), 8.5);
                test("cards left in place", hist(&s.fixed, nn), 7.5);
            }
            if s.n >= 1500 {
                let ways = [1302540.0, 1098240.0, 123552.0, 54912.0, 10200.0, 5108.0, 3744.0, 624.0, 40.0];
                let mut w = 0.0f64;
                for h in &s.hands {
                    let z = fit(h, |k| nn * ways[k] / 2598960.0);
                    w = if z.abs() > w.abs() { z } else { w };
                }
                test("classes of hands dealt, worst place", w, 8.0);
                let c = |n: i32, k: i32| (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64);
                let mut w = 0.0f64;
                for h in &s.suits {
                    let z = fit(h, |k| nn * c(13, k as i32) * c(39, 13 - k as i32) / c(52, 13));
                    w = if z.abs() > w.abs() { z } else { w };
                }
                test("suits among thirteen cards, worst suit", w, 8.0);
            }
            if s.n >= 60_000 {
                test("first two cards", chi(&s.first2, nn / 2652.0, false, 1.0, 2651.0), 7.5);
            }
            let sn = s.succ as f64;
            if s.succ >= 1500 {
                test("position to position in the next deck", chi(&s.trans, sn / 52.0, true, 51.0 / 52.0, 2601.0), 7.5);
                test("position kept in the next deck", hist(&s.kept, sn), 7.5);
            }
            if s.succ >= 60_000 {
                test("last card and first of the next deck", chi(&s.seam, sn / 2704.0, true, 1.0, 2703.0), 7.5);
            }
            tab.push((name.clone(), Value::Object(row.into_iter().collect())));
        }
        let mut v = Value::Object(tab.into_iter().collect());
        v["decks compared for repetition"] = json!(self.nhash);
        v["repeated decks"] = json!(dups);
        (found, v)
    }
}

/// z-score of a chi-square statistic
fn chi(m: &[[u64; N]; N], e: f64, diag: bool, scale: f64, df: f64) -> f64 {
    let mut x = 0.0;
    for (i, r) in m.iter().enumerate() {
        for (j, &o) in r.iter().enumerate() {
            if diag || i != j {
                x += (o as f64 - e) * (o as f64 - e) / e;
            }
        }
    }
    x *= scale;
    let a = 2.0 / (9.0 * df);
    ((x / df).cbrt() - (1.0 - a)) / a.sqrt()
}
/// z-score of a chi-square statistic of these counts, rare ones taken together
fn fit(o: &[u64], due: impl Fn(usize) -> f64) -> f64 {
    let (mut x, mut df, mut rest, mut rest_due) = (0.0, -1.0, 0.0, 0.0);
    let mut one = |o: f64, e: f64| {
        x += (o - e) * (o - e) / e;
        df += 1.0;
    };
    for (k, &o) in o.iter().enumerate() {
        let e = due(k);
        if e < 30.0 {
            rest += o as f64;
            rest_due += e;
        } else {
            one(o as f64, e);
        }
    }
    if rest_due > 10.0 {
        one(rest, rest_due);
    }
    if df < 1.0 {
        return 0.0;
    }
    let a = 2.0 / (9.0 * df);
    ((x / df).cbrt() - (1.0 - a)) / a.sqrt()
}
fn worst(m: &[[u64; N]; N], n: f64, p: f64, diag: bool) -> f64 {
    let mut w = 0.0f64;
    for (i, r) in m.iter().enumerate() {
        for (j, &o) in r.iter().enumerate() {
            if diag || i != j {
                let z = (o as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
                if z.abs() > w.abs() {
                    w = z;
                }
            }
        }
    }
    w
}
/// number of fixed points of a random permutation is Poisson(1) to 60 digits
fn hist(h: &[u64; 8], n: f64) -> f64 {
    let mut p = [0.0; 8];
    let mut t = (-1.0f64).exp();
    let mut rest = 1.0;
    for (k, x) in p.iter_mut().enumerate().take(5) {
        *x = t;
        rest -= t;
        t /= (k + 1) as f64;
    }
    p[5] = rest;
    let hi: u64 = h[5..].iter().sum();
    let mut x = 0.0;
    for k in 0..6 {
        let o = if k == 5 { hi } else { h[k] } as f64;
        x += (o - n * p[k]) * (o - n * p[k]) / (n * p[k]);
    }
    let df = 5.0;
    let a: f64 = 2.0 / (9.0 * df);
    ((x / df).cbrt() - (1.0 - a)) / a.sqrt()
}

impl Sample {
    fn deck(&mut self, d: &[u8], prev: Option<&[u8]>, gen: &[u8; N], has_gen: bool) {
        self.n += 1;
        let mut at = [0u8; N];
        for (i, &c) in d.iter().enumerate() {
            self.pos[c as usize][i] += 1;
            at[c as usize] = i as u8;
        }
        for p in d.windows(2) {
            self.adj[p[0] as usize][p[1] as usize] += 1;
        }
        // i before j for every pair is costly: take one card against all, in turn
        for i in 0..N {
            for j in 0..N {
                self.before[i][j] += (at[i] < at[j]) as u64;
            }
        }
        for (k, h) in self.hands.iter_mut().enumerate() {
            h[class(dealt(d, k))] += 1;
        }
        let mut in_suit = [0; 4];
        for c in &d[..13] {
            in_suit[(c % 4) as usize] += 1;
        }
        for (h, n) in self.suits.iter_mut().zip(in_suit) {
            h[n as usize] += 1;
        }
        self.first2[d[0] as usize][d[1] as usize] += 1;
        // as a permutation of the generated order
        let mut ord = [0u8; N];
        if has_gen {
            for (i, &c) in gen.iter().enumerate() {
                ord[c as usize] = i as u8;
            }
        } else {
            for (i, o) in ord.iter_mut().enumerate() {
                *o = i as u8;
            }
        }
        let p: Vec<u8> = d.iter().map(|&c| ord[c as usize]).collect();
        let mut seen = 0u64;
        let mut cyc = 0;
        for i in 0..N {
            let mut j = i;
            let mut first = true;
            while seen >> j & 1 == 0 {
                seen |= 1 << j;
                if first {
                    cyc += 1;
                    first = false;
                }
                j = p[j] as usize;
            }
        }
        self.cycles += cyc;
        self.odd += (N as u64 - cyc) & 1;
        let desc = p.windows(2).filter(|w| w[0] > w[1]).count() as u64;
        self.desc += desc;
        self.desc2 += desc * desc;
        let fix = p.iter().enumerate().filter(|(i, &c)| *i == c as usize).count();
        self.fixed[fix.min(7)] += 1;
        self.near_gen += (fix >= 18) as u64;
        if let Some(q) = prev {
            self.succ += 1;
            let mut kept = 0;
            for (i, &c) in q.iter().enumerate() {
                self.trans[i][at[c as usize] as usize] += 1;
                kept += (at[c as usize] as usize == i) as usize;
            }
            self.kept[kept.min(7)] += 1;
            self.near_prev += (kept >= 18) as u64;
            self.seam[q[N - 1] as usize][d[0] as usize] += 1;
        }
    }
}
