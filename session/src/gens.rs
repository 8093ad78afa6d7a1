//! Makes session plans.
use rand::{rngs::StdRng, seq::SliceRandom, SeedableRng};

use crate::{
    handgen, mined::MINED,
    oracle::payout,
    plan::*,
    refmodel as rm,
    rng::Rng,
};

/// The given 32 bytes, counting from 0, of what the world hands out.
pub fn seed_bytes(ent_seed: u64, block: u64) -> [u8; 32] {
    let mut s = ent_seed.wrapping_add(0x9E3779B97F4A7C15u64.wrapping_mul(32 * block));
    let mut o = [0; 32];
    for b in o.iter_mut() {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        *b = (crate::rng::mix64(s) >> 32) as u8;
    }
    o
}
/// A guess at how the game will go, used only to steer it to interesting
/// places. Nothing is judged by it.
#[derive(Clone)]
pub struct Guess {
    rng: StdRng,
    deck: Vec<u8>,
    pub hand: Vec<u8>,
}
impl Guess {
    pub fn new(ent_seed: u64) -> Self {
        // the game seeds a generator of its own, then asks for a deck
        let rng = StdRng::from_seed(seed_bytes(ent_seed, 0));
        let mut order: Vec<u8> = poker::deck::generate().map(rm::idx).collect();
        order.shuffle(&mut StdRng::from_seed(seed_bytes(ent_seed, 1)));
        Guess { rng, deck: order, hand: vec![] }
    }
    pub fn deal(&mut self) { self.hand = self.deck.drain(..5).collect(); }
    pub fn swap(&mut self, swaps: &[usize]) -> rm::Key {
        if !swaps.is_empty() {
            for &i in swaps {
                self.deck.push(self.hand[i]);
            }
            self.deck.shuffle(&mut self.rng);
            for (i, c) in self.deck.drain(..swaps.len()).enumerate() {
                self.hand[swaps[i]] = c;
            }
        }
        rm::strength(rm::mask(&self.hand))
    }
    pub fn finish(&mut self) {
        self.deck.append(&mut self.hand);
        self.deck.shuffle(&mut self.rng);
    }
}
pub fn subset(m: usize) -> Vec<usize> { (0..5).filter(|i| m >> i & 1 == 1).collect() }

/// Entropy with which some choice of cards ends in a hand of each name at
/// once, as source text.
pub fn mine(n: u64) {
    let threads = 8;
    let found: Vec<(u64, usize, rm::Key)> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                t.spawn(move || {
                    let (mut out, mut seen) = (vec![], std::collections::BTreeMap::new());
                    for s in (1 + w..n).step_by(threads as usize) {
                        let mut g = Guess::new(s);
                        g.deal();
                        for m in 0..32 {
                            let k = g.clone().swap(&subset(m));
                            let c = seen.entry(rm::name(k)).or_insert(0);
                            if *c < KEPT {
                                *c += 1;
                                out.push((s, m, k));
                            }
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let mut by: std::collections::BTreeMap<(u32, String), Vec<_>> = Default::default();
    for (s, m, k) in found {
        by.entry((rm::cat(k), rm::name(k))).or_default().push((s, m));
    }
    for ((_, name), mut v) in by {
        v.sort();
        v.dedup_by_key(|x| x.0);
        v.truncate(KEPT);
        println!("    (\"{name}\", &{v:?}),");
    }
}
const KEPT: usize = 4;

pub fn plan(prop: &str, seed: u64, run: u64, profile: &str) -> Plan {
    let r = &mut Rng::new(seed, prop.bytes().fold(7, |a, b| a * 131 + b as u64), run);
    let mut p = Plan { prop: prop.into(), seed, run, profile: profile.into(), ..Default::default() };
    p.prog = if prop == "C13" || prop == "C19" { "jacks" } else { "repl" }.into();
    p.env = Env {
        mode: r.weighted(&[50, 20, 30]) as u32,
        cols: *r.pick(&[80, 80, 80, 20, 33, 132, 500]),
        ent_seed: r.next(),
        hash_seed: r.next(),
        clock0: 1_600_000_000_000_000_000 + r.below(1 << 58),
        clock_tick: *r.pick(&[0, 0, 1_000, 1_000_000, 3_000_000_000]),
        ..Default::default()
    };
    if r.chance(300) {
        p.env.ent_eintr = *r.pick(&[100, 500, 900]);
    }
    if r.chance(300) {
        p.env.ent_short = *r.pick(&[100, 500, 900]);
    }
    if r.chance(100) {
        p.env.ent_enosys = 1;
    }
    if r.chance(15) {
        p.env.ent_hard_after = 1;
        p.env.ent_hard_errno = *r.pick(&[1, 5, 9]);
    }
    if prop == "C19" {
        p.env.mode = r.weighted(&[88, 6, 6]) as u32;
        if r.chance(100) {
            p.twin = Some(r.next());
        }
    }
    let lines = match prop {
        "C13" => jacks(r, &mut p),
        "C19" => blind(r, &p),
        _ => repl(r),
    };
    encode(r, &mut p, lines);
    // output faults
    if r.chance(450) {
        for _ in 0..1 + r.below(4) {
            p.wf.push(Wf { nth: 1 + r.below(40) as u32, kind: 1 + r.below(2) as u32, arg: 1 + r.below(9) as u32, sticky: r.chance(300) });
        }
        for w in p.wf.iter_mut() {
            if w.kind == 2 {
                w.sticky = false; // an interruption that never ends is a hang of the world's making
            }
        }
    }
    if r.chance(80) {
        p.wf.push(Wf { nth: 1 + r.below(60) as u32, kind: 3 + r.below(4) as u32, arg: 0, sticky: r.chance(800) });
    }
    p
}

const JUNK: [&str; 33] = [
    "", " ", "abc", "-1", "0x3", "1.0", "1e0", "²", "٣", "五", "3,", "NaN", "1_", "18446744073709551616", "18446744073709551615",
    "340282366920938463463374607431768211456", "4294967297", "\u{0}", "q", "quit ", " quit", "QUIT", "Quit", "qui", "quitt",
    "--help", "%s%n", "{}", "'; drop", "\u{feff}3", "３", "5\u{200b}", "9999999999999999999999999999999999999999999999999999999999999",
];

fn bad_wager(r: &mut Rng, credits: u128) -> String {
    match r.below(6) {
        0 => "0".into(),
        1 => (6 + r.below(20)).to_string(),
        2 if credits < 5 => (credits + 1).to_string(),
        3 => (1u64 << r.range(3, 63)).to_string(),
        _ => r.pick(&JUNK).to_string(),
    }
}
fn odd(r: &mut Rng, n: &str) -> String {
    match r.below(5) {
        0 => format!("+{n}"),
        1 => format!("0{n}"),
        2 => format!(" {n}"),
        3 => format!("{n} "),
        _ => format!("\t{n}"),
    }
}
fn bad_swaps(r: &mut Rng) -> String {
    let n = |r: &mut Rng| (1 + r.below(5)).to_string();
    match r.below(10) {
        0 => format!("{} 6", n(r)),
        1 => format!("0 {}", n(r)),
        2 => {
            let x = n(r);
            format!("{x} {} {x}", n(r))
        }
        3 => "1 2 3 4 5 1".into(),
        4 => "1 2 3 4 5 6".into(),
        5 => format!("{},{}", n(r), n(r)),
        6 => (0..r.range(6, 300)).map(|_| n(r)).collect::<Vec<_>>().join(" "),
        7 => "1 1 2 2 3 3".into(),
        8 => format!("{} {}", n(r), r.pick(&JUNK[2..])),
        _ => r.pick(&JUNK[2..]).to_string(),
    }
}

fn jacks(r: &mut Rng, p: &mut Plan) -> Vec<String> {
    let mut out = vec![];
    let mut first = None;
    if r.chance(350) {
        // a hand of some name at once: any name, or one hardly ever seen
        let rare = MINED.iter().position(|m| m.0.starts_with("Straight flush")).unwrap_or(0);
        let m = if r.chance(350) { r.pick(&MINED[rare..]) } else { r.pick(&MINED) };
        let m = r.pick(m.1);
        p.env.ent_seed = m.0;
        first = Some(m.1);
    }
    let mut g = Guess::new(p.env.ent_seed);
    let mut credits: u128 = 100;
    let rounds = *r.pick(&[1u64, 2, 3, 5, 8, 13, 25, 45, 80]);
    // 0 play anything, 1 lose as much as can be, 2 win, 3 hunt a class
    let style = r.weighted(&[40, 25, 15, 20]);
    let want = r.below(9) as u32;
    let p_bad = *r.pick(&[0, 0, 100, 300, 700]);
    let high = r.chance(400);
    for round in 0..rounds {
        while r.chance(p_bad) {
            let l = bad_wager(r, credits);
            out.push(l);
        }
        let max = credits.min(5) as u64;
        if max == 0 {
            break;
        }
        let w = match style {
            1 if r.chance(800) => max,
            _ if high => max,
            _ => 1 + r.below(max),
        };
        if credits < 5 && r.chance(300) {
            out.push((credits + 1).to_string());
        }
        out.push(if r.chance(30) { odd(r, &w.to_string()) } else { w.to_string() });
        g.deal();
        while r.chance(p_bad) {
            let l = bad_swaps(r);
            out.push(l);
        }
        if r.chance(10) {
            out.push("quit".into());
            break;
        }
        let pick = |r: &mut Rng, g: &Guess, score: &dyn Fn(rm::Key) -> i64| -> usize {
            let at = r.us(32);
            (0..32).map(|i| (i + at) % 32).max_by_key(|&m| score(g.clone().swap(&subset(m)))).unwrap()
        };
        let m = match (round, first, style) {
            (0, Some(m), _) => m,
            (_, _, 1) => pick(r, &g, &|k| -(payout(1, k) as i64)),
            (_, _, 2) => pick(r, &g, &|k| payout(1, k) as i64),
            (_, _, 3) => pick(r, &g, &|k| (rm::cat(k) == want) as i64),
            _ => match r.below(6) {
                0 => 0,
                1 => 31,
                _ => r.us(32),
            },
        };
        let mut v = subset(m);
        if r.chance(500) {
            r.shuffle(&mut v);
        }
        let sep = if r.chance(850) { " " } else { *r.pick(&["  ", "\t", " \u{a0}", "\u{2003}", "\u{b}"]) };
        let mut l = v.iter().map(|x| (x + 1).to_string()).collect::<Vec<_>>().join(sep);
        if r.chance(20) {
            l = odd(r, &l);
        }
        out.push(l);
        let k = g.swap(&v);
        g.finish();
        credits -= w as u128;
        let win = payout(w as u128, k);
        if win > 0 {
            credits += w as u128 + win;
        }
    }
    if r.chance(400) {
        out.push("quit".into());
        if r.chance(500) {
            out.push("3".into());
        }
    }
    out
}

/// Play that depends on nothing but what has been shown.
fn blind(r: &mut Rng, p: &Plan) -> Vec<String> {
    let mut out = vec![];
    let mut g = Guess::new(p.env.ent_seed);
    let rounds = *r.pick(&[1u64, 1, 1, 1, 1, 1, 2, 3, 5, 8, 8, 13, 13, 25, 25, 45, 80, 250]);
    let bet = r.below(4);
    let style = r.below(7);
    let p_bad = *r.pick(&[0, 0, 0, 50]);
    for _ in 0..rounds {
        if r.chance(p_bad) {
            out.push(r.pick(&JUNK).to_string());
        }
        // what cannot be afforded is refused
        let w = match bet {
            0 => 5,
            1 => 1,
            _ => 1 + r.below(5),
        };
        out.push(w.to_string());
        g.deal();
        let h = g.hand.clone();
        let again = |i: usize| (0..5).any(|j| j != i && h[j] / 4 == h[i] / 4);
        let suits = |i: usize| (0..5).filter(|&j| h[j] % 4 == h[i] % 4).count();
        let mut v = match style {
            0 => vec![],
            1 => (0..5).collect(),
            2 => (0..5).filter(|&i| !again(i)).collect(),
            3 => (0..5).filter(|&i| suits(i) < 3).collect(),
            _ => subset(r.us(32)),
        };
        if r.chance(300) {
            r.shuffle(&mut v);
        }
        out.push(v.iter().map(|x| (x + 1).to_string()).collect::<Vec<_>>().join(" "));
        g.swap(&v);
        g.finish();
    }
    out.push("quit".into());
    out
}

fn hand_line(r: &mut Rng, ladder: &rm::Ladder, hg: &mut handgen::HandGen) -> String {
    let h = match r.below(10) {
        0 => handgen::invalid(r),
        1 => handgen::random_hand(r, 0),
        2 => {
            let n = r.us(5);
            handgen::random_hand(r, n)
        }
        3 => {
            let n = r.range(5, 52) as usize;
            handgen::random_hand(r, n)
        }
        4 => handgen::boundary(r),
        _ => hg.next(ladder).0,
    };
    let mut t: Vec<String> = h.iter().map(|&c| rm::text(c)).collect();
    if r.chance(200) {
        let bad = ["1c", "TX", "tc", "10h", "A", "As,", "♠A", "A♠", "é", "Xx", "\u{1f0a1}", "aS", "cA", "0d", "Ah\u{200d}", "help", "quit", "%", "{}", "A\u{301}"];
        for _ in 0..1 + r.below(2) {
            let i = r.us(t.len() + 1);
            let b = match r.below(3) {
                0 => r.pick(&bad).to_string(),
                1 => handgen::near_token(r),
                _ if !t.is_empty() => {
                    let s = r.pick(&t).clone();
                    handgen::near_text(r, &s)
                }
                _ => "zz".into(),
            };
            t.insert(i, b);
        }
    }
    let sep = if r.chance(850) { " " } else { *r.pick(&["  ", "\t", "\u{a0}", "\u{2003}", "\u{c}", " \u{2028} ", "   \t  "]) };
    let mut l = t.join(sep);
    if r.chance(100) {
        l = format!("{}{l}{}", r.pick(&["", " ", "\t"]), r.pick(&["", " ", "  "]));
    }
    l
}
fn repl(r: &mut Rng) -> Vec<String> {
    #[allow(static_mut_refs)]
    let ladder = unsafe { crate::LADDER.as_ref().unwrap() };
    let kind = r.below(6) as u8;
    let mut hg = handgen::HandGen::new(r.next(), kind);
    let n = *r.pick(&[1u64, 2, 4, 8, 15, 30, 60, 150]);
    let mut out: Vec<String> = vec![];
    for _ in 0..n {
        let l = match r.below(40) {
            0 => "help".into(),
            1 => r.pick(&["help ", "HELP", " help", "helphelp", "?", "quit ", "QUIT", "quit quit", "hel", "q"]).to_string(),
            2 => r.pick(&JUNK).to_string(),
            3 if !out.is_empty() => r.pick(&out).clone(),
            4 if r.chance(30) => "Kd ".repeat(r.range(1, 3000) as usize),
            5 if r.chance(100) => "x".repeat(r.range(1, 40000) as usize),
            _ => hand_line(r, ladder, &mut hg),
        };
        out.push(l);
    }
    if r.chance(400) {
        out.push("quit".into());
        if r.chance(500) {
            out.push("As Ks Qs Js Ts".into());
        }
    }
    out
}

/// Turn lines into what arrives at the program.
fn encode(r: &mut Rng, p: &mut Plan, lines: Vec<String>) {
    if p.env.mode == 2 {
        return typed(r, p, lines);
    }
    let n = lines.len();
    let crlf = r.below(4);
    let style = r.below(5);
    let mut chunks: Vec<Vec<u8>> = vec![];
    let p_bs = *r.pick(&[0, 0, 0, 150]);
    for (i, l) in lines.iter().enumerate() {
        let mut b: Vec<u8> = vec![];
        if r.chance(p_bs) && l.is_ascii() && l.bytes().all(|c| c >= 0x20) {
            // typing errors taken back
            for c in l.bytes() {
                if r.chance(200) {
                    b.extend(b"x\x08");
                }
                b.push(c);
            }
        } else {
            b.extend(l.bytes());
        }
        if i + 1 < n || r.chance(800) {
            if crlf == 0 || crlf == 1 && r.chance(500) {
                b.push(b'\r');
            }
            b.push(b'\n');
        }
        if r.chance(4) {
            let at = r.us(b.len().max(1));
            b.insert(at, *r.pick(&[0xff, 0xc0, 0x80, 0xf5]));
        }
        chunks.push(b);
    }
    let all: Vec<u8> = chunks.concat();
    let cuts: Vec<Vec<u8>> = match style {
        0 => chunks,
        1 => vec![all],
        2 => all.chunks(1).map(|c| c.to_vec()).collect(),
        _ => {
            let mut v = vec![];
            let mut i = 0;
            while i < all.len() {
                let k = (1 + r.below(*r.clone().pick(&[3, 17, 200])) as usize).min(all.len() - i);
                v.push(all[i..i + k].to_vec());
                i += k;
            }
            v
        }
    };
    let p_int = *r.pick(&[0, 0, 30, 200]);
    let mut left = 600usize;
    for c in cuts {
        if c.is_empty() {
            continue;
        }
        while r.chance(p_int) && left > 0 {
            left -= 1;
            p.ins.push(if r.chance(800) { In::Eintr } else { In::Winch(40) });
        }
        if p.ins.len() < 3500 {
            p.ins.push(In::Data(c));
        }
    }
    // the input may end or fail early
    if r.chance(200) && !p.ins.is_empty() {
        let at = r.us(p.ins.len() + 1);
        let f = match r.below(4) {
            0 => In::Eio,
            1 => In::Eagain,
            _ => In::Eof,
        };
        p.ins.insert(at, f);
    }
}

/// Key strokes at a terminal that spell these lines.
fn typed(r: &mut Rng, p: &mut Plan, lines: Vec<String>) {
    let p_edit = *r.pick(&[0, 20, 100, 300]);
    let p_int = *r.pick(&[0, 0, 30, 150]);
    let chunky = r.chance(500);
    let mut left = 400usize;
    'all: for l in lines {
        let l: String = l.chars().filter(|c| (*c >= ' ' && c.is_ascii() && *c != '\u{7f}') || "éß♠♥٣你🂡".contains(*c)).take(400).collect();
        let mut keys: Vec<Vec<u8>> = vec![];
        if r.chance(50) && p.prog == "repl" {
            // an earlier line instead
            let up = 1 + r.below(4);
            for _ in 0..up {
                keys.push(b"\x1b[A".to_vec());
            }
            for _ in 0..r.below(up + 1) {
                keys.push(b"\x1b[B".to_vec());
            }
            if r.chance(500) {
                keys.push(vec![0x15]);
                keys.extend(l.chars().map(|c| c.to_string().into_bytes()));
            }
        } else if r.chance(100) && !l.is_empty() {
            keys.push([b"\x1b[200~", l.as_bytes(), b"\x1b[201~"].concat());
        } else {
            let mut cs: Vec<char> = l.chars().collect();
            // type the tail first, then the head in front of it
            let mut tail = vec![];
            if r.chance(p_edit) && cs.len() > 1 {
                let k = r.us(cs.len());
                tail = cs.split_off(k);
            }
            let put = |r: &mut Rng, keys: &mut Vec<Vec<u8>>, cs: &[char], free: bool| {
                for c in cs {
                    if r.chance(p_edit) {
                        match r.below(5) {
                            0 => {
                                keys.push(b"z".to_vec());
                                keys.push(vec![*r.pick(&[8u8, 0x7f])]);
                            }
                            1 => {
                                keys.push(b"z".to_vec());
                                keys.push(b"\x1b[D".to_vec());
                                keys.push(vec![4]);
                            }
                            2 => {
                                keys.push(vec![2]);
                                keys.push(if free { vec![5] } else { vec![6] });
                            }
                            3 => keys.push(vec![0xc]),
                            _ if free => {
                                keys.push(b"\x1b[H".to_vec());
                                keys.push(b"\x1b[F".to_vec());
                            }
                            _ => {}
                        }
                    }
                    keys.push(c.to_string().into_bytes());
                }
            };
            if !tail.is_empty() {
                put(r, &mut keys, &tail, true);
                keys.push(vec![1]);
                put(r, &mut keys, &cs, false);
            } else {
                put(r, &mut keys, &cs, true);
            }
        }
        keys.push(vec![if r.chance(900) { b'\r' } else { b'\n' }]);
        let mut chunk = vec![];
        for k in keys {
            chunk.extend(k);
            let enter = matches!(chunk.last(), Some(b'\r' | b'\n'));
            if enter || !chunky || r.chance(200) || chunk.len() > 400 {
                // a read may even stop inside a key
                let c = std::mem::take(&mut chunk);
                if c.len() > 1 && r.chance(100) {
                    let k = 1 + r.us(c.len() - 1);
                    p.ins.push(In::Data(c[..k].to_vec()));
                    if r.chance(300) {
                        p.ins.push(In::Eintr);
                    }
                    p.ins.push(In::Data(c[k..].to_vec()));
                } else {
                    p.ins.push(In::Data(c));
                }
                while r.chance(p_int) && left > 0 {
                    left -= 1;
                    p.ins.push(if r.chance(500) { In::Eintr } else { In::Winch(*r.pick(&[20, 21, 40, 80, 81, 200])) });
                }
                if p.ins.len() > 3500 {
                    break 'all;
                }
            }
        }
    }
    match r.below(10) {
        0 => p.ins.push(In::Data(vec![3])),
        1 => p.ins.push(In::Data(vec![4])),
        2 => p.ins.push(In::Data(b"half a line".to_vec())),
        3 => p.ins.push(In::Eio),
        4 => p.ins.push(In::Eagain),
        _ => {}
    }
    if r.chance(60) && !p.ins.is_empty() {
        let k = r.us(p.ins.len());
        p.ins.truncate(k);
        if p.ins.last().map_or(false, |i| matches!(i, In::Data(d) if d.ends_with(b"\x1b"))) {
            p.ins.pop();
        }
        p.ins.push(if r.chance(500) { In::Eof } else { In::Eio });
    }
}
