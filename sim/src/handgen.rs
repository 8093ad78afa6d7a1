//! Seeded streams of hands for bulk evaluation.
use crate::{
    plan::Hand,
    refmodel::{self as rm, Ladder},
    rng::Rng,
};

pub struct HandGen {
    r: Rng,
    kind: u8,
    ring: Vec<Hand>,
    last: Hand,
    i: u64,
    start: u64,
    stride: u64,
}

pub fn random_hand(r: &mut Rng, n: usize) -> Hand {
    let mut used = 0u64;
    let mut h = Vec::with_capacity(n);
    while h.len() < n.min(52) {
        let c = r.below(52) as u8;
        if used >> c & 1 == 0 {
            used |= 1 << c;
            h.push(c);
        }
    }
    h
}
/// Add random further cards.
pub fn extend(r: &mut Rng, h: &mut Hand, n: usize) {
    while h.len() < n {
        let c = r.below(52) as u8;
        if !h.contains(&c) {
            h.push(c);
        }
    }
}
pub fn relabel_suits(r: &mut Rng, h: &Hand) -> Hand {
    let mut p = [0u8, 1, 2, 3];
    r.shuffle(&mut p);
    h.iter().map(|&c| c / 4 * 4 + p[(c % 4) as usize]).collect()
}
/// A hand of the given place on the ladder.
pub fn of_class(r: &mut Rng, l: &Ladder, i: usize) -> Hand {
    let mut h = relabel_suits(r, &l.hands[i].to_vec());
    r.shuffle(&mut h);
    h
}
/// Seven cards (or so) near the borders between categories.
pub fn boundary(r: &mut Rng) -> Hand {
    let mut h: Hand = Vec::new();
    let put = |h: &mut Hand, c: u8| {
        if !h.contains(&c) {
            h.push(c)
        }
    };
    match r.below(8) {
        // wheels and six- or seven-card straights
        0 | 1 => {
            let lo = r.below(10); // 0 = ace low
            let n = r.range(4, 7);
            let flush = r.chance(400);
            let s = r.below(4);
            for k in 0..n {
                let rank = (lo + k + 12) % 13;
                let suit = if flush && !r.chance(120) { s } else { r.below(4) };
                put(&mut h, (rank * 4 + suit) as u8);
            }
        }
        // flush cards of one suit, with pairs besides
        2 | 3 => {
            let s = r.below(4);
            for _ in 0..r.range(4, 7) {
                put(&mut h, (r.below(13) * 4 + s) as u8);
            }
            for c in h.clone() {
                if r.chance(400) && h.len() < 8 {
                    put(&mut h, c / 4 * 4 + r.below(4) as u8);
                }
            }
        }
        // two trips, three pairs, quads and a pair
        4 | 5 => {
            let mut ranks: Vec<u64> = (0..13).collect();
            r.shuffle(&mut ranks);
            let shape: &[usize] = *r.pick(&[&[3usize, 3, 1][..], &[2, 2, 2, 1], &[4, 2, 1], &[4, 3], &[3, 2, 2], &[2, 2, 1, 1, 1], &[3, 1, 1, 1, 1]]);
            for (k, &n) in shape.iter().enumerate() {
                let mut s = [0u64, 1, 2, 3];
                r.shuffle(&mut s);
                for &x in &s[..n] {
                    put(&mut h, (ranks[k] * 4 + x) as u8);
                }
            }
        }
        // straight and flush by different cards
        6 => {
            let s = r.below(4);
            let lo = r.below(9);
            for k in 0..5 {
                let suit = if r.chance(500) { s } else { (s + 1 + r.below(3)) % 4 };
                put(&mut h, ((lo + k) * 4 + suit) as u8);
            }
            for _ in 0..3 {
                put(&mut h, (r.below(13) * 4 + s) as u8);
            }
        }
        _ => {
            let n = r.range(6, 11) as usize;
            h = random_hand(r, n);
        }
    }
    extend(r, &mut h, 5);
    h.truncate(9);
    r.shuffle(&mut h);
    h
}
pub fn invalid(r: &mut Rng) -> Hand {
    match r.below(10) {
        0..=3 => {
            let n = r.us(5);
            random_hand(r, n)
        }
        // a few cards over and over
        4 => {
            let n = r.range(1, 3) as usize;
            let p = random_hand(r, n);
            (0..r.range(5, 9)).map(|_| *r.pick(&p)).collect()
        }
        // many cards, one or more of them twice, anywhere
        5 => {
            let n = match r.below(4) {
                0 => 52,
                1 => r.range(30, 51) as usize,
                _ => r.range(9, 29) as usize,
            };
            let mut h = random_hand(r, n);
            // among them as many as make the length come near 256, 512 or 1,024
            let near = (1u64 << r.range(8, 10)) + r.below(10) - 2;
            let many = if r.chance(400) { near - n as u64 } else { r.range(60, 400) };
            for _ in 0..*r.pick(&[1, 1, 1, 1, 1, 1, 2, 2, 9, many]) {
                let c = *r.pick(&h);
                let k = r.us(h.len() + 1);
                h.insert(k, c);
            }
            h
        }
        _ => {
            let n = r.range(5, 8) as usize;
            let mut h = random_hand(r, n);
            for _ in 0..r.range(1, 2) {
                let (a, b) = (r.us(n), r.us(n));
                h[a] = h[b];
            }
            h
        }
    }
}
/// More cards than anyone holds: the number of combinations grows quickly.
pub fn big(r: &mut Rng, l: &Ladder, most: u64) -> Hand {
    let n = r.range(10, most) as usize;
    if r.chance(500) {
        return random_hand(r, n);
    }
    // few pairs and no flush for as long as possible, then the best cards last
    let mut h = random_hand(r, 52);
    h.sort_by_key(|&c| c / 4 + c % 4 * 3);
    h.truncate(n);
    let c = r.us(rm::CLASSES);
    let best = of_class(r, l, c);
    for (i, c) in best.into_iter().enumerate() {
        if !h.contains(&c) {
            let k = h.len() - 1 - i;
            h[k] = c;
        }
    }
    h
}
/// Another hand that weak summaries of a hand (sums, products, exclusive ors,
/// counts of suits or ranks) cannot tell from this one.
pub fn twin(r: &mut Rng, h: &Hand) -> Hand {
    let mut g = h.clone();
    if g.len() > 9 {
        r.shuffle(&mut g);
        return g;
    }
    for _ in 0..12 {
        let (i, j) = (r.us(g.len()), r.us(g.len()));
        let (a, b) = (g[i], g[j]);
        let (x, y) = match r.below(4) {
            // exchange suits: same ranks, same suits, same sums
            0 | 1 => (a / 4 * 4 + b % 4, b / 4 * 4 + a % 4),
            // one suit up, another down
            2 if a % 4 < 3 && b % 4 > 0 => (a + 1, b - 1),
            // one rank up, another down
            3 if a / 4 < 12 && b / 4 > 0 => (a + 4, b - 4),
            _ => continue,
        };
        if i == j || x == y || (x, y) == (a, b) || g.iter().enumerate().any(|(k, &c)| k != i && k != j && (c == x || c == y)) {
            continue;
        }
        g[i] = x;
        g[j] = y;
        if r.chance(500) {
            break;
        }
    }
    g
}
/// A hand like `h`, different in one respect or in none.
pub fn related(r: &mut Rng, h: &Hand) -> Hand {
    let mut g = h.clone();
    if g.len() > 9 {
        // a long list stays refused: without its repeats it would take for ever
        r.shuffle(&mut g);
        return g;
    }
    if g.is_empty() {
        return random_hand(r, 5);
    }
    let i = r.us(g.len());
    match r.below(10) {
        7..=9 => g = twin(r, h),
        0 => r.shuffle(&mut g),
        1 => g = relabel_suits(r, &g),
        2 => g[i] = g[i] / 4 * 4 + r.below(4) as u8,
        3 => g[i] = r.below(13) as u8 * 4 + g[i] % 4,
        4 => {
            // same ranks, other suits each
            let mut k: Hand = Vec::new();
            for &c in &g {
                let mut x = c / 4 * 4 + r.below(4) as u8;
                let mut t = 0;
                while k.contains(&x) && t < 8 {
                    x = c / 4 * 4 + r.below(4) as u8;
                    t += 1;
                }
                k.push(x);
            }
            g = k;
        }
        5 => {
            if g.len() > 1 {
                g.remove(i);
            }
        }
        _ => {
            let n = g.len() + 1;
            extend(r, &mut g, n.min(9));
        }
    }
    g
}

impl HandGen {
    pub fn new(seed: u64, kind: u8) -> Self {
        let mut r = Rng::new(seed, 0x4A4D, kind as u64);
        let start = r.below(rm::CLASSES as u64);
        // coprime to 7462 = 2 * 7 * 13 * 41
        let stride = loop {
            let s = r.below(rm::CLASSES as u64) | 1;
            if s % 7 != 0 && s % 13 != 0 && s % 41 != 0 {
                break s;
            }
        };
        HandGen { r, kind, ring: Vec::new(), last: Vec::new(), i: 0, start, stride }
    }
    pub fn next(&mut self, l: &Ladder) -> (Hand, u8) {
        let r = &mut self.r;
        let i = self.i;
        self.i += 1;
        let h = match self.kind {
            1 => {
                let mut h = of_class(r, l, ((self.start + i * self.stride) % rm::CLASSES as u64) as usize);
                if i % 3 == 2 {
                    let n = r.range(6, 7) as usize;
                    extend(r, &mut h, n);
                    r.shuffle(&mut h);
                }
                h
            }
            2 => random_hand(r, 5),
            3 => random_hand(r, 7),
            4 => {
                // come back to earlier hands and their neighbours again and again
                if self.ring.len() < 3 || r.chance(60) {
                    let c = r.us(rm::CLASSES);
                    let h = if r.chance(700) { of_class(r, l, c) } else { boundary(r) };
                    self.ring.push(h.clone());
                    h
                } else {
                    let k = r.us(self.ring.len());
                    let h = self.ring[k].clone();
                    if r.chance(500) { related(r, &h) } else { h }
                }
            }
            _ => {
                let h = match r.below(100) {
                    0..=14 if !self.last.is_empty() => related(r, &self.last.clone()),
                    15..=34 if !self.ring.is_empty() => {
                        let k = r.us(self.ring.len());
                        let h = self.ring[k].clone();
                        related(r, &h)
                    }
                    35..=44 if !self.ring.is_empty() => self.ring[r.us(self.ring.len())].clone(),
                    45..=69 => boundary(r),
                    70..=74 => invalid(r),
                    75..=89 => {
                        let c = r.us(rm::CLASSES);
                        of_class(r, l, c)
                    }
                    _ => match r.below(600) {
                        0 => big(r, l, 22),
                        1..=20 => big(r, l, 13),
                        _ => {
                            let n = r.range(5, 8) as usize;
                            random_hand(r, n)
                        }
                    },
                };
                if h.len() > 9 {
                    return (h, 0);
                }
                self.last = h.clone();
                if self.ring.len() < 24 {
                    self.ring.push(h.clone());
                } else {
                    let k = r.us(24);
                    self.ring[k] = h.clone();
                }
                h
            }
        };
        let how = if r.chance(120) { r.below(14) as u8 } else { 0 };
        (h, how)
    }
}

/// A character that a sloppy reader would take for `c`: the same low bits, another form of
/// the same letter or digit, the other case, or a neighbour in the code table.
pub fn near_char(r: &mut Rng, c: char) -> char {
    let u = c as u32;
    let k = 1 + r.below(8) as u32;
    let v = match r.below(16) {
        0..=3 => u + 0x100 * k,
        4 => u | 0x80,
        5 => u + 0xff00 - 0x20,
        6 => u + 0x10000 * (1 + r.below(16) as u32),
        7 => u ^ 0x20,
        8 => u + 1,
        9 => u.wrapping_sub(1),
        10 => u ^ (1 << r.below(8)),
        11 => u ^ (1 << r.below(21)),
        // digits and letters of other scripts, styles and enclosures
        12 if c.is_ascii_digit() => {
            let z = *r.pick(&[0x660u32, 0x6f0, 0x966, 0x9e6, 0xff10, 0x1d7ce, 0x1d7d8, 0x1d7ec, 0x1d7f6, 0xe50]);
            z + (u - 0x30)
        }
        12 | 13 if c.is_ascii_alphabetic() => {
            let z = *r.pick(&[0x1d400u32, 0x1d434, 0x1d5a0, 0x1d670, 0x24b6, 0xff21]);
            z + (u & 0x1f) - 1 + if c.is_ascii_lowercase() { 26 } else { 0 }
        }
        14 => *r.pick(&[0x212a, 0x17f, 0x410, 0x41a, 0x422, 0x391, 0x39a, 0x3a4, 0x408, 0x405, 0x421, 0x455, 0x441, 0x4bb, 0x501]),
        _ => u + 0x80 * k,
    };
    char::from_u32(v).unwrap_or('\u{fffd}')
}
/// A card's text with one or two characters replaced by such a character.
pub fn near_token(r: &mut Rng) -> String {
    let t = rm::text(r.below(52) as u8);
    let mut c: Vec<char> = t.chars().collect();
    let n = if r.chance(850) { 1 } else { 2 };
    let k = r.us(2);
    for i in 0..n {
        let j = (k + i) % 2;
        c[j] = near_char(r, c[j]);
    }
    c.into_iter().collect()
}
/// A text that folds to the same thing as `s` under a sloppy comparison.
pub fn near_text(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(5) {
        0 => c.reverse(),
        1 if !c.is_empty() => {
            let i = r.us(c.len());
            c.remove(i);
        }
        2 if !c.is_empty() => {
            let i = r.us(c.len());
            let x = c[i];
            c.insert(i, x);
        }
        3 => c.push(*r.pick(&['x', 's', '1', ',', '\u{301}'])),
        _ if !c.is_empty() => {
            let i = r.us(c.len());
            c[i] = near_char(r, c[i]);
        }
        _ => {}
    }
    c.into_iter().collect()
}

/// The five-card hand of a number below 2,598,960 (or that number modulo it), and
/// the one after it.
pub fn five_at(at: u64) -> [u8; 5] {
    let mut at = at % 2_598_960;
    let choose = |n: u64, k: u64| (0..k).fold(1, |p, i| p * (n - i) / (i + 1));
    let mut h = [0u8; 5];
    let mut c = 0u64;
    for i in 0..5 {
        loop {
            let left = choose(51 - c, 4 - i as u64);
            if at < left {
                break;
            }
            at -= left;
            c += 1;
        }
        h[i] = c as u8;
        c += 1;
    }
    h
}
pub fn five_after(h: &mut [u8; 5]) {
    for i in (0..5).rev() {
        if (h[i] as usize) < 47 + i {
            h[i] += 1;
            for k in i + 1..5 {
                h[k] = h[k - 1] + 1;
            }
            return;
        }
    }
    *h = [0, 1, 2, 3, 4];
}
