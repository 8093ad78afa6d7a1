//! Writes the table that the build script of poker would download: the format
//! of the pinned file (two `phf` maps from prime product to hand), the content
//! from the reference model. `tablegen tree FILE`: content and field names
//! taken from the tables which the tree itself works out at run time.
#[allow(dead_code)]
#[path = "../../../sim/src/refmodel.rs"]
mod refmodel;
#[allow(dead_code)]
#[path = "../../../sim/src/rng.rs"]
mod rng;

use refmodel as rm;

const PRIMES: [i32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
const M: &str = "crate::evaluate::meta::Meta";
const R: &str = "crate::evaluate::hand_rank::PokerHandRank";

fn rank(i: usize) -> String { format!("crate::Rank::{:?}", rm::RANKS[i]) }

fn model() -> [Vec<(i32, String)>; 2] {
    let l = rm::Ladder::new();
    let mut o = [Vec::new(), Vec::new()];
    for i in (0..rm::CLASSES).rev() {
        let k = l.keys[i];
        let hr = format!("hand_rank: {R}({})", rm::CLASSES - i);
        let (a, b) = (rank(rm::nib(k, 0)), rank(rm::nib(k, 1)));
        let v = match rm::cat(k) {
            8 => format!("{M}::StraightFlush {{ {hr}, high_rank: {a} }}"),
            7 => format!("{M}::FourOfAKind {{ {hr}, quads: {a} }}"),
            6 => format!("{M}::FullHouse {{ {hr}, trips: {a}, pair: {b} }}"),
            5 => format!("{M}::Flush {{ {hr}, high_rank: {a} }}"),
            4 => format!("{M}::Straight {{ {hr}, high_rank: {a} }}"),
            3 => format!("{M}::ThreeOfAKind {{ {hr}, trips: {a} }}"),
            2 => format!("{M}::TwoPair {{ {hr}, high_pair: {a}, low_pair: {b} }}"),
            1 => format!("{M}::Pair {{ {hr}, pair: {a} }}"),
            _ => format!("{M}::HighCard {{ {hr}, high_rank: {a} }}"),
        };
        let key = l.hands[i].iter().map(|c| PRIMES[(c / 4) as usize]).product();
        o[if matches!(rm::cat(k), 5 | 8) { 0 } else { 1 }].push((key, v));
    }
    o
}
/// `Flush { hand_rank: PokerHandRank(323), high_rank: Ace }` as an expression.
fn expression(debug: &str) -> String {
    let mut o = format!("{M}::");
    let mut word = String::new();
    let mut first = true;
    for c in debug.chars().chain(Some(' ')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            let known = rm::RANKS.iter().any(|r| format!("{r:?}") == word);
            if !first && known {
                o.push_str("crate::Rank::");
            } else if !first && c == '(' {
                o.push_str("crate::evaluate::hand_rank::");
            }
            o.push_str(&word);
            word.clear();
            first = false;
        }
        o.push(c);
    }
    o.trim().to_string()
}
fn tree() -> [Vec<(i32, String)>; 2] {
    let t = poker::evaluate::lookup_table::LookupTable::new();
    let f = |m: Vec<(i32, String)>| {
        let mut m = m;
        m.sort();
        m
    };
    [
        f(t.flush_lookup.iter().map(|(k, v)| (*k, expression(&format!("{v:?}")))).collect()),
        f(t.unsuited_lookup.iter().map(|(k, v)| (*k, expression(&format!("{v:?}")))).collect()),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (t, f) = if a.len() > 2 { (tree(), &a[2]) } else { (model(), &a[1]) };
    let mut s = String::new();
    for (m, name) in t.iter().zip(["FLUSH_LOOKUP", "UNSUITED_LOOKUP"]) {
        let mut g = phf_codegen::Map::new();
        for (k, v) in m {
            g.entry(*k, v);
        }
        s.push_str(&format!("pub static {name}: ::phf::Map<i32, {M}> = {};\n", g.build()));
    }
    std::fs::write(f, s).unwrap();
}
