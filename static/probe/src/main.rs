//! Exit 0 if the downloaded table answers like tables built at run time for
//! every five-card hand there is (up to suits), 1 if not.
#[path = "../../../sim/src/rng.rs"]
#[allow(dead_code)]
mod rng;
#[path = "../../../sim/src/refmodel.rs"]
#[allow(dead_code)]
mod rm;
use poker::{evaluate::static_lookup, Evaluator};

fn main() {
    let ev = Evaluator::new();
    let mut n = 0;
    let mut ask = |h: &[u8]| {
        let c = rm::cards(h);
        n += 1;
        let (a, b) = (ev.evaluate(&c), static_lookup::evaluate(&c));
        if a != b || a.as_ref().map(|e| e.class()) != b.as_ref().map(|e| e.class()) {
            println!("{}: {:?}, should be {:?}", rm::texts(h), b, a);
            std::process::exit(1);
        }
    };
    let mut r = [0u8; 5];
    // ranks in order, each at most four times
    fn go(at: usize, from: u8, r: &mut [u8; 5], ask: &mut dyn FnMut(&[u8])) {
        if at == 5 {
            // suits: all different where a rank repeats; the rest mixed, and all one suit
            let mut h = [0u8; 5];
            let mut used = 0;
            for i in 0..5 {
                used = if i > 0 && r[i] == r[i - 1] { used + 1 } else { (i as u8) % 2 };
                if used > 3 {
                    used = 0;
                }
                h[i] = r[i] * 4 + used;
            }
            if (1..5).all(|i| !h[..i].contains(&h[i])) {
                ask(&h);
            }
            if (1..5).all(|i| r[i] != r[i - 1]) {
                ask(&[r[0] * 4, r[1] * 4, r[2] * 4, r[3] * 4, r[4] * 4]);
            }
            return;
        }
        for k in from..13 {
            if at >= 4 && r[at - 4] == k {
                continue;
            }
            r[at] = k;
            go(at + 1, k, r, ask);
        }
    }
    go(0, 0, &mut r, &mut ask);
    drop(ask);
    println!("{n}");
    if n < 7000 {
        std::process::exit(2);
    }
}
