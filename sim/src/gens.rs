//! Plan generators: one seed and run number give one plan.
use crate::{
    handgen::{big, boundary, extend, invalid, near_char, near_text, near_token, of_class, random_hand, related, twin},
    plan::*,
    refmodel as rm,
    rng::{mix64, Rng},
    rt::Env,
    world::{ladder, MODES},
};

/// How much instrumented work the threads of a plan do.
#[derive(Clone, Copy, PartialEq)]
enum Load {
    /// a few calls: preempt densely
    Tiny,
    Light,
    /// table construction inside the threads: preempt sparsely
    Heavy,
}

fn env(r: &mut Rng, threads: usize, load: Load) -> Env {
    let gaps: &[u32] = match load {
        Load::Tiny => &[1, 2, 4, 9, 30, 100, 400],
        Load::Light => &[0, 60, 300, 1500, 6000],
        Load::Heavy => &[0, 4000, 30000, 200000],
    };
    let mut e = Env {
        sched_seed: r.next(),
        strategy: r.weighted(&[50, 30, 20]) as u32,
        p_sync: *r.pick(&[0u32, 20, 120, 400, 800]),
        gap_plain: *r.pick(gaps),
        victim: 1 + r.below(threads.max(1) as u64) as u32,
        stall_len: *r.pick(&[5u32, 60, 800, 20000]),
        p_spurious: *r.pick(&[0u32, 0, 60, 400]),
        clock0: r.below(1 << 50),
        clock_tick: *r.pick(&[0u64, 1, 1000, 1_000_000, 1_000_000_000]),
        jump_at: if r.chance(300) { 1 + r.below(6) as u32 } else { 0 },
        jump_by: (r.below(2_000_000_000_000) as i64) - 1_000_000_000_000,
        entropy_seed: r.next(),
        sync_cap: 20_000_000,
        fake_pid: 2 + r.below(4_000_000) as u32,
        ..Env::default()
    };
    if r.chance(300) {
        e.ent_eintr = *r.pick(&[100u32, 500, 900]);
    }
    if r.chance(300) {
        e.ent_short = *r.pick(&[200u32, 700, 1000]);
    }
    if r.chance(150) {
        e.ent_enosys = 1;
    }
    e
}

fn a_hand(r: &mut Rng) -> Hand {
    match r.below(10) {
        0 => invalid(r),
        1..=3 => boundary(r),
        4..=6 => {
            let i = r.us(rm::CLASSES);
            let mut h = of_class(r, ladder(), i);
            if r.chance(300) {
                let n = r.range(6, 8) as usize;
                extend(r, &mut h, n);
                r.shuffle(&mut h);
            }
            h
        }
        _ => {
            let n = r.range(5, 8) as usize;
            random_hand(r, n)
        }
    }
}
/// Two hands that share the best five of one, while the other does better or
/// has the same: what a mixed-up memory of the one says of the other is wrong.
fn near_twins(r: &mut Rng) -> Vec<Hand> {
    let n = r.range(6, 7) as usize;
    let mut a = if r.chance(300) {
        let i = r.us(rm::CLASSES);
        let mut h = of_class(r, ladder(), i);
        extend(r, &mut h, n);
        h
    } else {
        random_hand(r, n)
    };
    r.shuffle(&mut a);
    let s = rm::strength(rm::mask(&a));
    // a card that does not matter
    let idle: Vec<usize> = (0..n).filter(|&i| rm::strength(rm::mask(&a) & !(1 << a[i])) == s).collect();
    let mut v = vec![a.clone()];
    for _ in 0..60 {
        let mut b = a.clone();
        let c = r.below(52) as u8;
        if b.contains(&c) {
            continue;
        }
        match idle.is_empty() || r.chance(200) {
            true => b.push(c),
            false => b[*r.pick(&idle)] = c,
        }
        if rm::strength(rm::mask(&b)) != s {
            v.push(b);
            if v.len() > 2 || r.chance(500) {
                break;
            }
        }
    }
    v
}
/// Hands that look alike to a sloppy cache or check sum.
fn family(r: &mut Rng) -> Vec<Hand> {
    if r.chance(150) {
        return near_twins(r);
    }
    if r.chance(400) {
        // shared cards on the table, and each player's own
        let i = r.us(rm::CLASSES);
        let mut table = if r.chance(500) { random_hand(r, 5) } else { of_class(r, ladder(), i) };
        r.shuffle(&mut table);
        table.truncate(*r.pick(&[3, 4, 5, 5, 5]));
        return (0..r.range(2, 6))
            .map(|_| {
                let mut h = table.clone();
                let n = r.range(5.max(h.len() as u64), 8) as usize;
                extend(r, &mut h, n);
                if r.chance(500) {
                    r.shuffle(&mut h);
                }
                h
            })
            .collect();
    }
    let base = match r.below(4) {
        0 => boundary(r),
        1 => {
            let i = r.us(rm::CLASSES);
            let mut h = of_class(r, ladder(), i);
            let n = r.range(5, 7) as usize;
            extend(r, &mut h, n);
            h
        }
        2 => invalid(r),
        _ => {
            let n = r.range(5, 8) as usize;
            random_hand(r, n)
        }
    };
    let mut v = vec![base];
    for _ in 0..r.range(1, 4) {
        let h = r.pick(&v).clone();
        v.push(if r.chance(700) && h.len() > 1 { twin(r, &h) } else { related(r, &h) });
    }
    v
}
fn eval_op(r: &mut Rng, slot: u8) -> Op {
    Op::Eval { slot, views: vec![a_hand(r)], how: r.below(14) as u8, seam: r.chance(200), hooks: vec![], alloc: 0 }
}
fn batch(r: &mut Rng, slot: u8, n: u32) -> Op {
    Op::Batch { slot, seed: r.next(), n, kind: r.weighted(&[40, 25, 8, 12, 15]) as u8 }
}
fn new_op(slot: u8) -> Op { Op::New { slot, default: false, alloc: 0 } }

fn rng_spec(r: &mut Rng, hostile: bool) -> RngSpec {
    let mut segs = Vec::new();
    if hostile {
        for _ in 0..r.range(1, 3) {
            let k = match r.below(8) {
                0 => SegKind::Zero,
                1 => SegKind::Ones,
                2 => SegKind::Const(r.next()),
                3 => SegKind::Alternate(r.next(), r.next()),
                4 => SegKind::Counter(if r.chance(500) { r.below(100) } else { r.next() }),
                5 => {
                    let n = r.range(2, 9);
                    SegKind::Period((0..n).map(|_| r.next()).collect())
                }
                6 => SegKind::LowBits(r.below(33) as u32),
                _ => SegKind::HighBits(r.below(33) as u32),
            };
            let len = match r.below(4) {
                0 => r.range(1, 8),
                1 => r.range(8, 60),
                _ => r.range(40, 400),
            } as u32;
            segs.push((k, len));
        }
        if r.chance(400) {
            // healthy at first, then misbehaving
            let n = r.range(1, 60) as u32;
            segs.insert(0, (SegKind::LowBits(0), 0));
            segs.insert(1, (SegKind::Period((0..n).map(|_| r.next()).collect()), n));
        }
    }
    RngSpec { seed: r.next(), segs }
}

// ---------------------------------------------------------------- generators

pub fn plan(prop: &str, seed: u64, run: u64, profile: &str) -> Plan {
    let p: u64 = prop[1..].parse().unwrap_or(0);
    let mut r = Rng::new(seed, p, run);
    let mut plan = Plan {
        prop: prop.into(),
        seed,
        run,
        profile: profile.into(),
        env: Env::default(),
        env2: None,
        relation: String::new(),
        quiet_setup: true,
        setup: vec![],
        threads: vec![],
        tail: vec![],
        decisions: None,
        decisions2: None,
        violation: None,
        hash: None,
    };
    let r = &mut r;
    match prop {
        "C01" => c01(r, &mut plan),
        "C02" => c02(r, &mut plan),
        "C03" => c03(r, &mut plan),
        "C04" => c04(r, &mut plan),
        "C05" => c05(r, &mut plan),
        "C06" => c06(r, &mut plan),
        "C07" => c07(r, &mut plan),
        "C08" => c08(r, &mut plan),
        "C09" => c09(r, &mut plan),
        "C10" => c10(r, &mut plan),
        "C11" => c11(r, &mut plan),
        "C12" => c12(r, &mut plan),
        "C15" => c15(r, &mut plan),
        "C16" => c16(r, &mut plan),
        "C17" => c17(r, &mut plan),
        "C20" => c20(r, &mut plan),
        _ => panic!("no such property"),
    }
    wear(r, &mut plan);
    sweep(&mut plan);
    // transcripts of very long histories are too long to compare
    if plan.threads.iter().map(Vec::len).sum::<usize>() > 1100 {
        plan.env2 = None;
        plan.relation.clear();
    }
    plan
}

/// Numbers at which something narrow might overflow or start again.
fn round_number(r: &mut Rng, large: bool) -> u32 {
    let n = if large { *r.pick(&[1u32 << 16, 1 << 16, 1 << 16, 1 << 15, 10_000]) } else { *r.pick(&[256u32, 256, 256, 128, 100, 64, 1000, 1024, 4096]) };
    n - if r.chance(800) { r.below(12) as u32 } else { r.below(60) as u32 }
}
/// Long wear before ordinary use: one call many times over, many evaluators
/// alive at once, many threads.
fn wear(r: &mut Rng, p: &mut Plan) {
    if p.threads.is_empty() {
        return;
    }
    let no_entropy = p.env.ent_hard_after > 0 || p.env.ent_nodev > 0;
    let kinds: &[u8] = match p.prop.as_str() {
        "C01" => &[0, 0, 0, 1, 1, 2, 3, 15],
        "C02" => &[0, 1],
        "C03" => &[9, 9, 0, 1],
        "C04" => &[15, 15, 16, 2, 0, 6],
        "C05" => &[0, 4, 6, 2],
        "C06" => &[4, 4, 5, 5, 14, 11],
        "C07" => &[6, 6, 7, 10, 10, 17],
        "C08" => &[6, 6, 6, 7, 17],
        "C10" => &[7, 7, 17],
        "C11" => &[11, 11, 11, 14, 5],
        "C12" => &[8, 8, 16, 2],
        "C15" => &[0, 0, 1, 1, 2, 3, 15],
        "C16" => &[13, 4, 14, 10],
        "C17" => &[12],
        _ => return,
    };
    let slot = if p.prop == "C15" { r.weighted(&[25, 75]) as u8 } else { 0 };
    let again = |r: &mut Rng, large: bool| {
        let mut n = round_number(r, large);
        let mut kind = *r.pick(kinds);
        if no_entropy && matches!(kind, 7 | 17) {
            kind = 6;
        }
        if kind == 9 {
            n = n.min(4096);
        }
        Op::Again { slot, kind, seed: r.next(), n }
    };
    let many = if p.prop == "C10" { 100 } else { 46 };
    let os = p.prop == "C10" || p.prop == "C07";
    let seamless = |o: &Op| os && matches!(o, Op::Shuffled { .. }) || matches!(o, Op::Eval { .. } | Op::Make { .. } | Op::Order { .. } | Op::Msg { .. } | Op::Fmt { .. } | Op::Parse { .. } | Op::ShuffleWith { .. } | Op::Chars { .. });
    match r.below(1000) {
        0..=11 => {
            let t = r.us(p.threads.len());
            let o = again(r, true);
            p.threads[t].insert(0, o);
        }
        12..=36 => {
            let t = r.us(p.threads.len());
            let k = r.us(p.threads[t].len().min(3) + 1);
            let o = again(r, false);
            p.threads[t].insert(k, o);
        }
        // a crowd of threads that do what the few would have done
        k if (37..=many).contains(&k) && p.env2.is_none() && p.prop != "C03" && p.prop != "C02" => {
            let pool: Vec<Op> = p.threads.iter().flatten().filter(|o| seamless(o) && o.depth() == 0 && o.size() < 200).cloned().collect();
            let most = r.range(34, 140) as usize;
            while !pool.is_empty() && p.threads.len() < most {
                let n = r.range(1, 3);
                let ops = (0..n).map(|_| r.pick(&pool).clone()).collect();
                p.threads.push(ops);
            }
        }
        47..=60 if p.prop == "C03" || p.prop == "C01" => {
            let n = match r.below(4) {
                0 => r.range(250, 300),
                1 => r.range(120, 135),
                _ => r.range(10, 70),
            } as u32;
            let t = r.us(p.threads.len());
            let k = r.us(p.threads[t].len() + 1);
            p.threads[t].insert(k, Op::Hoard { slot, seed: r.next(), n });
        }
        _ => {}
    }
}
/// A share of a numbered whole: the runs of a check together cover it.
fn sweep(p: &mut Plan) {
    let k = p.seed.wrapping_mul(0x9E37_79B9) % (1 << 40) + p.run;
    let op = |slot, kind, n: u32, k: u64| Op::Sweep { slot, kind, at: k * n as u64, n };
    match p.prop.as_str() {
        "C01" => p.tail.push(op(0, 0, 200, k)),
        "C15" => p.tail.push(op(1, 0, 300, k)),
        "C06" => p.tail.push(op(0, 1, 128, k)),
        "C02" if p.run % 16 == 5 => p.tail.push(op(0, 2, 14, k / 16)),
        "C12" => p.tail.push(Op::Fmt { val: Val::Eval(ladder().hands[k as usize % rm::CLASSES].to_vec()), debug: false, torn: 0, hooks: vec![], alloc: 0 }),
        _ => {}
    }
}
/// A chain of calls, each made by the caller code of the one before.
fn chain(r: &mut Rng) -> Op {
    let d = *r.pick(&[9u32, 12, 17, 20, 33, 40, 65, 100]);
    let one = r.chance(600).then(|| r.below(4));
    let mut op = eval_op(r, 0);
    for _ in 0..d {
        let hook = |r: &mut Rng, max: u64, op: Op| vec![Hk { at: r.range(1, max) as u32, act: Act::Call(Box::new(op)) }];
        let kind = one.unwrap_or_else(|| r.below(4));
        op = match kind {
            0 => Op::Eval { slot: 0, views: vec![a_hand(r)], how: r.below(2) as u8, seam: true, hooks: hook(r, 1, op), alloc: 0 },
            1 => Op::ShuffleWith { rng: rng_spec(r, false), how: r.below(6) as u8, hooks: hook(r, 30, op), alloc: 0, keep: 0 },
            2 => {
                let mut o = parse_op(r, 1, 0);
                if let Op::Parse { hooks, .. } = &mut o {
                    *hooks = hook(r, 2, op);
                }
                o
            }
            _ => Op::Fmt { val: a_val(r), debug: false, torn: 0, hooks: hook(r, 1, op), alloc: 0 },
        };
    }
    op
}

fn c01(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    match r.below(10) {
        // a few calls, preempted everywhere
        0..=3 => {
            let n = r.range(2, 4) as usize;
            // the threads share hands, so that one call's data can leak into another
            if r.chance(150) {
                let pool = near_twins(r);
                for _ in 0..n {
                    let ops = (0..r.range(3, 9)).map(|_| Op::Eval { slot: 0, views: vec![r.pick(&pool).clone()], how: 0, seam: false, hooks: vec![], alloc: 0 });
                    p.threads.push(ops.collect());
                }
                p.env = env(r, n, Load::Tiny);
                p.env.p_sync = *r.pick(&[60, 150, 300, 500]);
                p.env.gap_plain = *r.pick(&[0, 0, 100, 400]);
                return;
            }
            let mut pool: Vec<Hand> = if r.chance(500) {
                family(r)
            } else {
                (0..r.range(2, 4)).map(|_| a_hand(r)).collect()
            };
            let crowd = r.chance(250);
            while crowd && pool.len() < 9 {
                pool.extend(family(r));
            }
            for _ in 0..n {
                let mut ops = Vec::new();
                for _ in 0..if crowd { r.range(6, 16) } else { r.range(1, 7) } {
                    let mut h = r.pick(&pool).clone();
                    if r.chance(300) {
                        h = related(r, &h);
                    }
                    let how = if r.chance(700) { 0 } else { r.below(14) as u8 };
                    ops.push(Op::Eval { slot: 0, views: vec![h], how, seam: r.chance(150), hooks: vec![], alloc: 0 });
                }
                p.threads.push(ops);
            }
            p.env = env(r, n, Load::Tiny);
        }
        // long histories
        4 => {
            let n = r.range(1, 2) as usize;
            let very = r.chance(60);
            for _ in 0..n {
                let mut ops = vec![];
                for _ in 0..if very { 25 } else { 1 } {
                    let k = r.range(4000, 9000) as u32;
                    ops.push(batch(r, 0, k));
                }
                p.threads.push(ops);
            }
            p.env = env(r, n, Load::Heavy);
        }
        // many cards
        5 if r.chance(100) => {
            let n = r.range(1, 3) as usize;
            for _ in 0..n {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 3) {
                    let most = *r.pick(&[16, 20, 24, 24, 30]);
                    let h = if p.run % 7 == 0 && ops.is_empty() { big(r, ladder(), 52) } else { big(r, ladder(), most) };
                    ops.push(Op::Eval { slot: 0, views: vec![h], how: r.below(14) as u8, seam: r.chance(200), hooks: vec![], alloc: 0 });
                    ops.push(eval_op(r, 0));
                }
                p.threads.push(ops);
            }
            p.env = env(r, n, Load::Heavy);
        }
        _ => {
            let n = r.range(2, 8) as usize;
            for _ in 0..n {
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 4) {
                    match r.below(10) {
                        0..=5 => {
                            let k = r.range(10, 250) as u32;
                            ops.push(batch(r, 0, k));
                        }
                        6..=8 => {
                            for _ in 0..r.range(1, 6) {
                                ops.push(eval_op(r, 0));
                            }
                        }
                        _ => ops.push(Op::Sleep(r.below(1_000_000_000))),
                    }
                }
                p.threads.push(ops);
            }
            if r.chance(30) {
                let t = r.us(n);
                p.threads[t].push(Op::Ladder { slot: 0 });
            }
            p.env = env(r, n, Load::Light);
        }
    }
    let k = r.range(20, 120) as u32;
    let b = batch(r, 0, k);
    p.tail.push(b);
}

fn showdown_hands(r: &mut Rng, n: usize) -> Vec<Hand> {
    match r.below(6) {
        // a board and hole cards from one deck
        0 | 1 => {
            let mut d = random_hand(r, 52);
            if r.chance(400) {
                // a board that plays often
                let i = rm::CLASSES - 1 - r.us(1700);
                let b = of_class(r, ladder(), i);
                d.retain(|c| !b.contains(c));
                d.extend(&b);
            }
            let board: Hand = d.split_off(47);
            (0..n)
                .map(|k| {
                    let mut h = board.clone();
                    h.extend(&d[2 * k..2 * k + 2]);
                    r.shuffle(&mut h);
                    h
                })
                .collect()
        }
        // neighbours on the ladder
        2 | 3 => {
            let at = r.us(rm::CLASSES);
            let span = *r.pick(&[1usize, 3, 12]);
            (0..n)
                .map(|_| {
                    let i = (at + r.us(2 * span + 1)).saturating_sub(span).min(rm::CLASSES - 1);
                    of_class(r, ladder(), i)
                })
                .collect()
        }
        // around the borders of categories
        4 => {
            let edges = [0usize, 1276, 1277, 4136, 4137, 4994, 4995, 5852, 5853, 5862, 5863, 7139, 7140, 7295, 7296, 7451, 7452, 7461];
            (0..n)
                .map(|_| {
                    let e = *r.pick(&edges);
                    let i = (e + r.us(3)).saturating_sub(1).min(rm::CLASSES - 1);
                    of_class(r, ladder(), i)
                })
                .collect()
        }
        _ => (0..n)
            .map(|_| {
                let mut h = boundary(r);
                h.truncate(7);
                h
            })
            .collect(),
    }
}
fn c02(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    let n = r.range(2, 6) as usize;
    let players = r.range(2, 22) as usize;
    let hands = showdown_hands(r, players);
    for _ in 0..n {
        p.threads.push(vec![]);
    }
    for (i, h) in hands.into_iter().enumerate() {
        let t = r.us(n);
        p.threads[t].push(Op::Player { id: i as u8, slot: 0, hand: h });
    }
    if r.chance(60) {
        p.tail.push(Op::Ladder { slot: 0 });
    }
    // observers of every method, two of each of a few, so that they can gossip
    let mut modes: Vec<u8> = (0..MODES).collect();
    for _ in 0..4 {
        modes.push(r.below(MODES as u64) as u8);
    }
    let k = r.range(30, 250);
    let mut events = Vec::new();
    for _ in 0..k {
        events.push(match r.below(20) {
            0..=3 => Ev::Gossip(r.below(16) as u8, r.below(16) as u8),
            4 => Ev::Restart(r.below(16) as u8),
            _ => Ev::Deliver(r.below(players as u64) as u8, r.below(16) as u8),
        });
    }
    if r.chance(700) {
        // the network heals: everything is delivered everywhere, in some order
        let mut rest = Vec::new();
        for o in 0..16u8 {
            for q in 0..players as u8 {
                rest.push(Ev::Deliver(q, o));
            }
        }
        r.shuffle(&mut rest);
        events.extend(rest);
    }
    p.tail.push(Op::Net { modes, events });
    p.tail.push(Op::Pairs);
    p.env = env(r, n, Load::Tiny);
}

fn c03(r: &mut Rng, p: &mut Plan) {
    if r.chance(700) {
        p.setup.push(new_op(0));
    }
    let n = r.range(2, 4) as usize;
    let mut builds = 0;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(3, 9) {
            let (a, b) = (r.below(6) as u8, r.below(6) as u8);
            ops.push(match r.below(20) {
                0 | 1 if builds < 5 => {
                    builds += 1;
                    Op::New { slot: a, default: r.chance(500), alloc: 0 }
                }
                0..=4 => Op::Clone { from: a, to: b, into: r.chance(200), alloc: 0 },
                5..=7 => Op::Drop { slot: a },
                8 | 9 => Op::Move { from: a, to: b },
                10 | 11 => Op::Cmp { a, b },
                12..=15 => {
                    let k = r.range(3, 60) as u32;
                    batch(r, a, k)
                }
                _ => eval_op(r, a),
            });
        }
        p.threads.push(ops);
    }
    // whatever is left must agree with a new one
    p.tail.push(Op::New { slot: 5, default: r.chance(500), alloc: 0 });
    for s in 0..3 {
        p.tail.push(Op::Cmp { a: s, b: 5 });
    }
    let b = batch(r, r.clone().below(6) as u8, 40);
    p.tail.push(b);
    p.env = env(r, n, Load::Heavy);
}

/// The slot an operation evaluates with becomes 1 (the downloaded table), mostly.
fn to_static(r: &mut Rng, op: &mut Op) {
    match op {
        Op::Eval { slot, hooks, .. } => {
            if r.chance(750) {
                *slot = 1;
            }
            hooks_static(r, hooks);
        }
        Op::Batch { slot, .. } | Op::Ladder { slot } => {
            if r.chance(750) {
                *slot = 1;
            }
        }
        Op::New { slot, .. } | Op::Drop { slot } => *slot = 2 + *slot % 2,
        Op::Clone { from, to, .. } => {
            if *from == 1 {
                *from = 0;
            }
            *to = 2 + *to % 2;
        }
        Op::GenPair { hooks, .. } | Op::ShuffleWith { hooks, .. } | Op::Parse { hooks, .. } | Op::Fmt { hooks, .. } => {
            hooks_static(r, hooks)
        }
        _ => {}
    }
}
fn hooks_static(r: &mut Rng, hooks: &mut [Hk]) {
    for h in hooks {
        if let Act::Call(op) = &mut h.act {
            to_static(r, op);
        }
    }
}
/// The downloaded table beside tables built at run time: shared use, faults in
/// caller code, stalls and re-entry, changing containers.
fn c15(r: &mut Rng, p: &mut Plan) {
    match r.below(10) {
        0..=5 => c01(r, p),
        6 | 7 => c04(r, p),
        _ => c05(r, p),
    }
    p.setup = vec![Op::Static { slot: 1 }, new_op(0)];
    for ops in p.threads.iter_mut().chain(Some(&mut p.tail)) {
        for op in ops.iter_mut() {
            to_static(r, op);
        }
    }
    if r.chance(50) {
        p.tail.push(Op::Ladder { slot: 1 });
    }
}

fn fault_hooks(r: &mut Rng, max: u64, kind: u32) -> Vec<Hk> {
    // kind 0 panic, 1 error
    vec![Hk { at: r.range(1, max) as u32, act: if kind == 0 { Act::Panic } else { Act::Err } }]
}
fn c04(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    let n = r.range(1, 4) as usize;
    let mut heavy = false;
    let mut builds = 0;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 7) {
            match r.below(24) {
                0 if builds < 2 => {
                    heavy = true;
                    builds += 1;
                    ops.push(Op::New { slot: r.below(3) as u8, default: r.chance(200), alloc: r.range(1, 40) as u32 });
                }
                1 | 2 if builds < 3 => {
                    heavy = true;
                    builds += 1;
                    ops.push(Op::Clone { from: 0, to: r.range(1, 3) as u8, into: r.chance(200), alloc: r.range(1, 5) as u32 });
                }
                0..=2 => ops.push(Op::Generate { take: 52, how: r.below(16) as u8, alloc: r.range(1, 4) as u32 }),
                3..=6 => ops.push(Op::Eval {
                    slot: 0,
                    views: vec![a_hand(r)],
                    how: r.below(2) as u8,
                    seam: true,
                    hooks: fault_hooks(r, 3, 0),
                    alloc: 0,
                }),
                7..=9 => ops.push(Op::Eval {
                    slot: 0,
                    views: vec![if r.chance(400) { invalid(r) } else { a_hand(r) }],
                    how: r.below(14) as u8,
                    seam: r.chance(300),
                    hooks: vec![],
                    alloc: r.range(1, 6) as u32,
                }),
                10..=12 => {
                    let host = r.chance(200);
                    ops.push(Op::ShuffleWith {
                        rng: rng_spec(r, host),
                        how: r.below(6) as u8,
                        hooks: fault_hooks(r, 60, 0),
                        alloc: 0,
                        keep: r.below(3) as u8,
                    });
                }
                13 => ops.push(Op::ShuffleWith {
                    rng: rng_spec(r, false),
                    how: r.below(6) as u8,
                    hooks: vec![],
                    alloc: r.range(1, 3) as u32,
                    keep: 0,
                }),
                14 => ops.push(Op::Shuffled { alloc: r.range(1, 4) as u32, keep: r.below(3) as u8 }),
                15 => ops.push(Op::GenPair { pattern: r.next(), hooks: fault_hooks(r, 104, 0) }),
                16..=18 => {
                    let al = if r.chance(300) { r.range(1, 6) as u32 } else { 0 };
                    let mut o = parse_op(r, 1, al);
                    if let Op::Parse { hooks, .. } = &mut o {
                        if r.chance(500) {
                            let base = if r.chance(500) { 1000 } else { 0 };
                            hooks.push(Hk { at: base + r.range(1, 14) as u32, act: Act::Panic });
                        }
                    }
                    ops.push(o);
                }
                19..=21 => {
                    let val = a_val(r);
                    let err = r.chance(600) as u32;
                    ops.push(Op::Fmt {
                        val,
                        debug: r.chance(150),
                        torn: r.below(4) as u32,
                        hooks: fault_hooks(r, 8, err),
                        alloc: 0,
                    });
                }
                22 => ops.push(Op::Fmt { val: a_val(r), debug: false, torn: 0, hooks: vec![], alloc: r.range(1, 8) as u32 }),
                _ => {
                    let k = r.range(5, 40) as u32;
                    ops.push(batch(r, 0, k));
                }
            }
        }
        p.threads.push(ops);
    }
    let b = batch(r, 0, 40);
    p.tail.push(b);
    p.tail.push(Op::Generate { take: 52, how: 0, alloc: 0 });
    p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
    p.tail.push(Op::Cmp { a: 0, b: 4 });
    p.env = env(r, n, if heavy { Load::Heavy } else { Load::Tiny });
    if r.chance(150) {
        // entropy fails for a while: calls die, later ones must not be marked by it
        p.env.ent_hard_after = r.range(1, 2) as u32;
        p.env.ent_hard_len = r.range(1, 3) as u32;
        p.env.ent_hard_errno = *r.pick(&[5u32, 1, 11]);
        for _ in 0..5 {
            p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
        }
    }
}

/// An operation without injected failures, to run inside or beside others.
fn inner_op(r: &mut Rng, depth: u32) -> Op {
    let hooks = |r: &mut Rng, max: u64| -> Vec<Hk> {
        if depth > 0 && r.chance(500) {
            vec![Hk { at: r.range(1, max) as u32, act: Act::Call(Box::new(inner_op(r, depth - 1))) }]
        } else {
            vec![]
        }
    };
    match r.below(12) {
        0..=3 => {
            let views = if r.chance(300) {
                let a = a_hand(r);
                let b = related(r, &a);
                vec![a, b]
            } else {
                vec![a_hand(r)]
            };
            Op::Eval { slot: 0, views, how: r.below(2) as u8, seam: true, hooks: hooks(r, 2), alloc: 0 }
        }
        4 => {
            let k = r.range(1, 8) as u32;
            batch(r, 0, k)
        }
        5 => Op::Generate { take: 52, how: r.below(16) as u8, alloc: 0 },
        6 => Op::GenPair { pattern: r.next(), hooks: hooks(r, 104) },
        7 => Op::ShuffleWith { rng: rng_spec(r, false), how: r.below(6) as u8, hooks: hooks(r, 52), alloc: 0, keep: 0 },
        8 => Op::Shuffled { alloc: 0, keep: 0 },
        9 | 10 => {
            let mut o = parse_op(r, 2, 0);
            let h = hooks(r, 8);
            if let Op::Parse { hooks, .. } = &mut o {
                *hooks = h;
            }
            o
        }
        _ => Op::Fmt { val: a_val(r), debug: r.chance(200), torn: 0, hooks: hooks(r, 6), alloc: 0 },
    }
}
fn c05(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    let n = r.range(2, 5) as usize;
    // sometimes many operations build their own evaluator
    let fresh = r.chance(60);
    for t in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 6) {
            let stall = |r: &mut Rng| -> Act {
                match r.below(10) {
                    0..=3 => Act::Stall(*r.pick(&[0u32, 0, 1, 3, 20])),
                    4 => Act::Yield,
                    5 => Act::Sleep(r.below(10_000_000_000)),
                    _ => {
                        let d = *r.pick(&[0u32, 0, 1, 2, 4]);
                        Act::Call(Box::new(inner_op(r, d)))
                    }
                }
            };
            let hs = |r: &mut Rng, max: u64| -> Vec<Hk> {
                let k = r.range(1, 2);
                (0..k).map(|_| Hk { at: r.range(1, max) as u32, act: stall(r) }).collect()
            };
            ops.push(match r.below(12) {
                0..=3 => {
                    let a = a_hand(r);
                    let mut views = vec![a.clone()];
                    if r.chance(500) {
                        // another answer the second time: other cards, other
                        // length, suddenly invalid, suddenly valid
                        let b = match r.below(4) {
                            0 => invalid(r),
                            1 => related(r, &a),
                            2 => {
                                let n = r.us(9);
                                random_hand(r, n)
                            }
                            _ => a_hand(r),
                        };
                        views.push(b);
                        if r.chance(300) {
                            views.push(a_hand(r));
                        }
                    }
                    Op::Eval { slot: 0, views, how: r.below(2) as u8, seam: true, hooks: hs(r, 2), alloc: 0 }
                }
                4 => {
                    let host = r.chance(200);
                    Op::ShuffleWith { rng: rng_spec(r, host), how: r.below(6) as u8, hooks: hs(r, 55), alloc: 0, keep: 0 }
                }
                5 => Op::GenPair { pattern: r.next(), hooks: hs(r, 104) },
                6..=8 => {
                    let mut o = parse_op(r, 2, 0);
                    let mut h = hs(r, 8);
                    for k in h.iter_mut() {
                        if r.chance(400) {
                            k.at += 1000;
                        }
                    }
                    if let Op::Parse { hooks, .. } = &mut o {
                        *hooks = h;
                    }
                    o
                }
                9 | 10 => Op::Fmt { val: a_val(r), debug: r.chance(150), torn: 0, hooks: hs(r, 7), alloc: 0 },
                _ => inner_op(r, 2),
            });
        }
        if fresh && t == 0 {
            ops.push(new_op(1));
        }
        if r.chance(15) {
            let o = chain(r);
            ops.push(o);
        }
        p.threads.push(ops);
    }
    let b = batch(r, 0, 20);
    p.tail.push(b);
    p.env = env(r, n, if fresh { Load::Heavy } else { Load::Tiny });
    if p.env.ent_hard_after > 0 {
        p.env.ent_hard_after = 0;
    }
}

fn odd_text(r: &mut Rng) -> String {
    let pool: &[&str] = &[
        "x", "1", "0", "Z", " ", "\u{2660}", "\u{2665}", "\u{2666}", "\u{2663}", "\u{e9}", "\u{ff21}", "\u{1f0a1}",
        "\u{0}", "\u{7f}", "\u{301}", "\u{212a}", "\u{17f}", "10", "A", "a", "S", "s", "C", "D", "H", "t", "j", "q",
        "k", "\u{130}", "\u{200b}", "-", "2", "9", "T", "\u{fffd}", "\u{fb06}", "\u{a0}",
    ];
    if r.chance(400) {
        let c = *r.pick(&['2', '3', '4', '5', '6', '7', '8', '9', 'T', 'J', 'Q', 'K', 'A', 'c', 'd', 'h', 's']);
        return near_char(r, c).to_string();
    }
    (*r.pick(pool)).to_string()
}
fn link_fault(r: &mut Rng) -> LinkFault {
    let a = r.below(64) as u32;
    let b = r.below(64) as u32;
    match r.below(18) {
        0 => LinkFault::DropTok(a),
        1 | 2 => LinkFault::DupTok(a, b),
        3 => LinkFault::SwapTok(a, b),
        4 => LinkFault::JoinTok(a),
        5 => LinkFault::CaseTok(a),
        6..=8 => LinkFault::ReplaceCh(a, r.below(3) as u32, odd_text(r)),
        9 if r.chance(60) => LinkFault::InsertCh(a, *r.pick(&[0, 2, 2, 2]), filler(r)),
        9 => LinkFault::InsertCh(a, r.below(3) as u32, odd_text(r)),
        10 => LinkFault::Truncate(a),
        11 | 12 => LinkFault::FlipBit(a, r.below(8) as u8),
        13 => LinkFault::SetByte(a, r.below(256) as u8),
        14 => LinkFault::DropByte(a),
        15 => {
            let sp = *r.pick(&["\t", "\n", "  ", "\r\n", "\u{a0}", "\u{2003}", "\u{b}", "\u{85}", "\u{200b}", ""]);
            LinkFault::Space(a, sp.to_string())
        }
        16 => LinkFault::Latin1,
        _ => {
            let n = r.range(1, 5) as usize;
            LinkFault::Late(random_hand(r, n))
        }
    }
}
fn c06(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    let n = r.range(1, 4) as usize;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(4, 30) {
            if r.chance(60) {
                let ch = |r: &mut Rng| {
                    if r.chance(300) {
                        odd_text(r).chars().next().unwrap()
                    } else if r.chance(100) {
                        let c = *r.pick(&rm::RANK_CH);
                        near_char(r, c)
                    } else if r.chance(500) {
                        *r.pick(&rm::RANK_CH)
                    } else {
                        *r.pick(&['c', 'd', 'h', 's', 'C', 'D', 'H', 'S', '\u{2660}', 'x'])
                    }
                };
                ops.push(Op::Chars { a: ch(r), b: ch(r) });
                continue;
            }
            let mut hand = match r.below(4) {
                0 => random_hand(r, 5),
                1 => random_hand(r, 7),
                2 => {
                    let i = r.us(rm::CLASSES);
                    of_class(r, ladder(), i)
                }
                _ => {
                    let k = r.us(10);
                    random_hand(r, k)
                }
            };
            hand.truncate(10);
            let faults = (0..r.below(4)).map(|_| link_fault(r)).collect();
            ops.push(Op::Msg { hand, faults, how: r.below(112) as u8, slot: 0 });
        }
        p.threads.push(ops);
    }
    let load = if r.chance(500) { Load::Tiny } else { Load::Light };
    p.env = env(r, n, load);
}

fn c07(r: &mut Rng, p: &mut Plan) {
    if r.chance(500) {
        p.setup.push(Op::Generate { take: 52, how: 0, alloc: 0 });
    }
    let n = r.range(1, 6) as usize;
    let long = r.chance(80);
    let very = long && r.chance(100);
    for _ in 0..n {
        let mut ops = Vec::new();
        let k = if very { r.range(400, 1500) } else if long { r.range(40, 160) } else { r.range(1, 12) };
        for _ in 0..k {
            ops.push(match r.below(16) {
                0 | 1 => Op::Generate { take: 52, how: r.below(16) as u8, alloc: 0 },
                2 => Op::Generate { take: r.below(53) as u32, how: 0, alloc: 0 },
                3 => {
                    let hooks = if r.chance(300) { fault_hooks(r, 104, 0) } else { vec![] };
                    Op::GenPair { pattern: r.next(), hooks }
                }
                4 | 5 => Op::Shuffled { alloc: 0, keep: r.below(8) as u8 },
                6..=8 => Op::ShuffleWith { rng: rng_spec(r, false), how: r.below(6) as u8, hooks: vec![], alloc: 0, keep: r.below(8) as u8 },
                9..=11 => Op::ShuffleWith { rng: rng_spec(r, true), how: r.below(6) as u8, hooks: vec![], alloc: 0, keep: r.below(8) as u8 },
                12 => {
                    let host = r.chance(500);
                    Op::ShuffleWith {
                        rng: rng_spec(r, host),
                        how: r.below(6) as u8,
                        hooks: fault_hooks(r, 56, 0),
                        alloc: 0,
                        keep: 0,
                    }
                }
                13 => {
                    // a source that deals another deck in the middle of this one
                    let o = if r.chance(500) {
                        Op::ShuffleWith { rng: rng_spec(r, false), how: 0, hooks: vec![], alloc: 0, keep: 0 }
                    } else {
                        Op::Generate { take: 52, how: 0, alloc: 0 }
                    };
                    let at = r.range(1, 52) as u32;
                    Op::ShuffleWith {
                        rng: rng_spec(r, false),
                        how: r.below(6) as u8,
                        hooks: vec![Hk { at, act: Act::Call(Box::new(o)) }],
                        alloc: 0,
                        keep: 0,
                    }
                }
                _ => Op::Deal { deck: r.below(8) as u8, n: r.range(1, 52) as u32 },
            });
        }
        p.threads.push(ops);
    }
    p.tail.push(Op::Generate { take: 52, how: 0, alloc: 0 });
    p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
    p.env = env(r, n, if long { Load::Light } else { Load::Tiny });
}

/// The same world again with other entropy, clock, process and schedule.
fn other_world(r: &mut Rng, e: &Env, schedule: bool) -> Env {
    let mut f = e.clone();
    f.entropy_seed = r.next();
    f.clock0 = r.below(1 << 50);
    f.clock_tick = *r.pick(&[0u64, 7, 1_000_003]);
    f.jump_by = -f.jump_by;
    f.fake_pid = 2 + r.below(4_000_000) as u32;
    f.heap_shift = r.below(1 << 22) as u32;
    if schedule {
        f.sched_seed = r.next();
        f.strategy = r.below(3) as u32;
    }
    f
}
fn c08(r: &mut Rng, p: &mut Plan) {
    let n = r.range(2, 5) as usize;
    let k = r.range(2, 6);
    let pool: Vec<RngSpec> = (0..k)
        .map(|_| {
            let host = r.chance(300);
            rng_spec(r, host)
        })
        .collect();
    let mut pool = pool;
    if r.chance(400) {
        // streams that share values
        let s = r.next();
        for _ in 0..r.range(2, 4) {
            let at = r.range(1, 50) as u32;
            let segs = match r.below(6) {
                0..=2 => vec![(SegKind::Same(s, 0), r.range(1, 30) as u32)],
                3 => vec![(SegKind::Same(s, 0), at), (SegKind::Const(r.next()), 1), (SegKind::Same(s, at + 1), 400)],
                4 => vec![(SegKind::Same(r.next(), 0), at), (SegKind::Same(s, at), 400)],
                _ => vec![(SegKind::Same(s, r.below(3) as u32), 400)],
            };
            pool.push(RngSpec { seed: r.next(), segs });
        }
    }
    let long = r.chance(60);
    let very = long && r.chance(100);
    for _ in 0..n {
        let mut ops = Vec::new();
        let m = if very { r.range(500, 1500) } else if long { r.range(60, 200) } else { r.range(2, 10) };
        for _ in 0..m {
            ops.push(match r.below(17) {
                16 => Op::RealRng { seed: r.next(), skip: r.below(70) as u32 },
                0 => Op::Shuffled { alloc: 0, keep: 0 },
                1 => Op::Generate { take: 52, how: 0, alloc: 0 },
                2 => Op::Sleep(r.below(100_000_000_000)),
                3 => Op::Yield,
                4 => Op::ShuffleWith { rng: rng_spec(r, false), how: r.below(6) as u8, hooks: vec![], alloc: 0, keep: 0 },
                5 => Op::ShuffleWith {
                    rng: r.pick(&pool).clone(),
                    how: r.below(6) as u8,
                    hooks: fault_hooks(r, 51, 0),
                    alloc: 0,
                    keep: 0,
                },
                6 => {
                    let at = r.range(1, 50) as u32;
                    let inner = Op::ShuffleWith { rng: r.pick(&pool).clone(), how: r.below(6) as u8, hooks: vec![], alloc: 0, keep: 0 };
                    Op::ShuffleWith {
                        rng: r.pick(&pool).clone(),
                        how: r.below(6) as u8,
                        hooks: vec![Hk { at, act: Act::Call(Box::new(inner)) }],
                        alloc: 0,
                        keep: 0,
                    }
                }
                _ => Op::ShuffleWith { rng: r.pick(&pool).clone(), how: r.below(6) as u8, hooks: vec![], alloc: 0, keep: 0 },
            });
        }
        p.threads.push(ops);
    }
    p.env = env(r, n, if long { Load::Light } else { Load::Tiny });
    if r.chance(300) {
        p.env2 = Some(other_world(r, &p.env.clone(), true));
        p.relation = "same".into();
    }
}

/// Threads deal many decks; the driver counts.
fn c09(r: &mut Rng, p: &mut Plan) {
    let n = r.range(1, 4) as usize;
    let given = p.run % 2 == 0;
    p.setup.push(Op::Generate { take: 52, how: 0, alloc: 0 });
    for _ in 0..n {
        p.threads.push(vec![Op::Decks { given, seed: r.next(), n: r.range(1, 900) as u32, fresh: r.chance(500) }]);
    }
    p.env = env(r, n, Load::Heavy);
    p.env.ent_eintr /= 4;
}

fn c10(r: &mut Rng, p: &mut Plan) {
    let kind = r.below(10);
    let n = if kind >= 8 { 1 } else { r.range(1, 8) as usize };
    let long = r.chance(100);
    let very = long && r.chance(100);
    for _ in 0..n {
        let mut ops = Vec::new();
        let m = if very { r.range(300, 1200) } else if long { r.range(20, 90) } else { r.range(1, 5) };
        for _ in 0..m {
            ops.push(match r.below(12) {
                0 => Op::Sleep(r.below(10_000_000_000)),
                1 => Op::Generate { take: 52, how: 0, alloc: 0 },
                2 => {
                    // a caller's shuffle with a fixed stream must not fix the others
                    Op::ShuffleWith { rng: RngSpec { seed: 42, segs: vec![] }, how: 0, hooks: vec![], alloc: 0, keep: 0 }
                }
                _ => Op::Shuffled { alloc: 0, keep: 0 },
            });
        }
        p.threads.push(ops);
    }
    p.env = env(r, n, if long { Load::Light } else { Load::Tiny });
    match kind {
        // no entropy at all, or none after a while
        0 | 1 => {
            p.env.ent_hard_after = *r.pick(&[1u32, 1, 2, 3, 9]);
            p.env.ent_hard_errno = *r.pick(&[5u32, 1, 12, 22, 38]);
            if r.chance(400) {
                p.env.ent_enosys = 1;
                p.env.ent_nodev = r.chance(500) as u32;
            }
        }
        // unsupported, then healthy again
        2 => {
            p.env.ent_hard_after = *r.pick(&[1u32, 2]);
            p.env.ent_hard_len = r.range(1, 3) as u32;
            p.env.ent_hard_errno = 5;
            p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
            p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
            p.tail.push(Op::Shuffled { alloc: 0, keep: 0 });
        }
        // change the entropy and nothing else
        3..=6 => {
            let mut f = p.env.clone();
            f.entropy_seed = mix64(f.entropy_seed) ^ r.next();
            p.env2 = Some(f);
            p.relation = "unrelated".into();
        }
        // change everything except the entropy
        8 | 9 => {
            let e = p.env.clone();
            let mut f = other_world(r, &e, false);
            f.entropy_seed = e.entropy_seed;
            p.env2 = Some(f);
            p.relation = "same-all".into();
        }
        _ => {}
    }
    if kind > 2 && r.chance(300) {
        p.tail.push(Op::Fork { before: r.below(9) as u32, kids: r.range(1, 3) as u32, n: r.range(1, 6) as u32 });
    }
}

/// As many characters as a narrow count takes for none.
fn filler(r: &mut Rng) -> String {
    let k = *r.pick(&[128u64, 256, 256, 512, 32768, 65536, 65536, 131072]) + *r.pick(&[0, 0, 0, 0, 1, 2]);
    let c = *r.pick(&['s', 'A', 'x', '\u{2660}', '\u{0}']);
    std::iter::repeat(c).take(k as usize).collect()
}
/// A text much longer than any card.
fn long_text(r: &mut Rng) -> String {
    if r.chance(200) {
        // a good card at the front
        return rm::text(r.below(52) as u8) + &filler(r);
    }
    let n = match r.below(8) {
        0..=2 => *r.pick(&[16u64, 32, 64, 128, 255, 256, 257, 258, 512, 514]),
        3 => *r.pick(&[65535u64, 65536, 65538]),
        _ => r.range(3, 700),
    };
    let c = match r.below(4) {
        0 => odd_text(r),
        1 => rm::text(r.below(52) as u8),
        2 => (*r.pick(&["\u{e9}", "\u{2660}", "\u{1f0a1}"])).to_string(),
        _ => "x".into(),
    };
    let mut s: String = c.chars().cycle().take(n as usize).collect();
    if r.chance(500) {
        let o = odd_text(r);
        s.insert_str(0, &o);
    }
    s
}
fn tok(r: &mut Rng) -> String {
    if r.chance(8) {
        return long_text(r);
    }
    match r.below(11) {
        0..=6 => {
            let mut s = rm::text(r.below(52) as u8);
            if r.chance(100) {
                let c = s.pop().unwrap();
                s.push(c.to_ascii_uppercase());
            }
            s
        }
        7 => {
            let mut s = rm::text(r.below(52) as u8);
            let k = r.us(3);
            s.insert_str(k.min(s.len()), &odd_text(r));
            s
        }
        8 => {
            let mut s = odd_text(r);
            if r.chance(600) {
                s.push_str(&odd_text(r));
            }
            s
        }
        9 => near_token(r),
        _ => {
            let t = rm::text(r.below(52) as u8);
            match r.below(4) {
                0 => String::new(),
                1 => t[..1].to_string(),
                2 => format!("{}x", &t[..1]),
                _ => format!("x{}", &t[1..]),
            }
        }
    }
}
/// level 0: no faults in the source; 1: pauses, panics; 2: pauses and varying answers
fn parse_op(r: &mut Rng, level: u32, alloc: u32) -> Op {
    let n = match r.below(10) {
        0 => 0,
        1..=7 => r.range(1, 14),
        _ => r.range(15, 60),
    };
    let good = r.chance(250);
    let mut items: Vec<Item> = Vec::new();
    for _ in 0..n {
        items.push(match r.below(40) {
            0..=2 if level >= 1 => Item::Pause,
            3 | 4 if level == 1 => Item::Panic,
            5 if level == 1 => Item::PanicStr(tok(r)),
            6 | 7 if level == 2 => {
                let a = tok(r);
                // both answers good or both bad, so that either reading is definite
                let mut b = tok(r);
                let mut k = 0;
                while rm::parse(&a).is_ok() != rm::parse(&b).is_ok() && k < 30 {
                    b = tok(r);
                    k += 1;
                }
                if rm::parse(&a).is_ok() == rm::parse(&b).is_ok() { Item::Vary(vec![a, b]) } else { Item::Str(a) }
            }
            _ if good => Item::Str(rm::text(r.below(52) as u8)),
            // a text like one that came before
            30..=33 if !items.is_empty() => match r.pick(&items).clone() {
                Item::Str(s) => Item::Str(if r.chance(300) { s } else { near_text(r, &s) }),
                _ => Item::Str(tok(r)),
            },
            _ => Item::Str(tok(r)),
        });
    }
    let parsers = if r.chance(300) { r.range(2, 3) as u8 } else { 1 };
    let mut steps = Vec::new();
    for _ in 0..r.range(1, 20) {
        let q = r.below(parsers as u64) as u8;
        steps.push(match r.below(20) {
            0..=9 => Step::Next(q),
            10 => Step::Nth(q, r.below(4) as u32),
            11 | 12 => Step::Take(q, r.below(6) as u32),
            13 | 14 => Step::FindErr(q),
            15 | 16 => Step::SizeHint(q),
            17 => Step::Steal,
            _ => Step::End(q, r.below(8) as u8),
        });
    }
    for q in 0..parsers {
        if r.chance(800) {
            steps.push(Step::End(q, r.below(8) as u8));
        }
    }
    Op::Parse { items, kind: r.below(4) as u8, hint: r.below(6) as u8, parsers, steps, hooks: vec![], alloc }
}
fn c11(r: &mut Rng, p: &mut Plan) {
    let n = r.range(1, 3) as usize;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 14) {
            let lv = r.range(0, 2) as u32;
            let mut o = parse_op(r, lv, 0);
            if let Op::Parse { hooks, .. } = &mut o {
                if r.chance(200) {
                    let act = match r.below(4) {
                        0 => Act::Panic,
                        1 => Act::Yield,
                        2 => Act::Stall(2),
                        _ => Act::Call(Box::new(parse_op(r, 0, 0))),
                    };
                    let base = if r.chance(400) { 1000 } else { 0 };
                    hooks.push(Hk { at: base + r.range(1, 16) as u32, act });
                }
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    p.env = env(r, n, Load::Tiny);
}

fn a_val(r: &mut Rng) -> Val {
    match r.below(20) {
        0 => Val::Card(r.below(52) as u8),
        1 => Val::Rank(r.below(13) as u8),
        2 => Val::Suit(r.below(4) as u8),
        3..=5 => Val::Class(r.below(9) as u8, r.below(13) as u8, r.below(13) as u8),
        6..=10 => Val::Eval(a_hand(r)),
        11 => Val::Best,
        12 => Val::Worst,
        13 | 14 => {
            let s = if r.chance(150) { long_text(r) } else { tok(r) };
            Val::ParseErr(s)
        }
        15 => {
            let c = |r: &mut Rng| odd_text(r).chars().next().unwrap();
            Val::CharsErr(c(r), c(r))
        }
        16 => Val::FewErr(r.below(5) as u32),
        17 => Val::DupErr(invalid(r)),
        _ => {
            let n = match r.below(4) {
                0 => r.range(5, 30),
                _ => r.range(5, 8),
            } as usize;
            let mut h = random_hand(r, n);
            let c0 = *r.pick(&h);
            let same = r.chance(400);
            for _ in 0..r.range(1, 6) {
                let c = if same { c0 } else { *r.pick(&h) };
                let k = match r.below(4) {
                    0 => 0,
                    1 => h.len(),
                    _ => r.us(h.len() + 1),
                };
                h.insert(k, c);
            }
            Val::DupErr(h)
        }
    }
}
fn c12(r: &mut Rng, p: &mut Plan) {
    p.setup.push(new_op(0));
    let n = r.range(1, 4) as usize;
    let pool: Vec<Val> = (0..r.range(2, 8)).map(|_| a_val(r)).collect();
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(3, 20) {
            let val = if r.chance(500) { r.pick(&pool).clone() } else { a_val(r) };
            let hooks = match r.below(10) {
                0..=3 => vec![Hk { at: r.range(1, 9) as u32, act: Act::Err }],
                4 => vec![Hk { at: r.range(1, 6) as u32, act: Act::Panic }],
                5 => vec![Hk { at: r.range(1, 6) as u32, act: Act::Stall(2) }],
                6 => {
                    let v = a_val(r);
                    let o = Op::Fmt { val: v, debug: false, torn: 0, hooks: vec![], alloc: 0 };
                    vec![Hk { at: r.range(1, 6) as u32, act: Act::Call(Box::new(o)) }]
                }
                _ => vec![],
            };
            ops.push(Op::Fmt { val, debug: r.chance(80), torn: r.below(5) as u32, hooks, alloc: 0 });
        }
        p.threads.push(ops);
    }
    p.env = env(r, n, Load::Tiny);
    if r.chance(400) {
        p.env2 = Some(other_world(r, &p.env.clone(), true));
        p.relation = "same".into();
    }
}

fn card_list(r: &mut Rng) -> Hand {
    match r.below(6) {
        0 => (0..52).collect(),
        1 => random_hand(r, 52),
        2 => {
            // many of one rank, repeats
            let k = r.below(13) as u8;
            (0..r.range(2, 12)).map(|_| if r.chance(600) { k * 4 + r.below(4) as u8 } else { r.below(52) as u8 }).collect()
        }
        3 => (0..r.range(20, 130)).map(|_| r.below(52) as u8).collect(),
        _ => {
            let n = r.us(9);
            (0..n).map(|_| r.below(52) as u8).collect()
        }
    }
}
fn make_op(r: &mut Rng) -> Op {
    Op::Make { cards: card_list(r), way: r.below(16) as u8, alloc: if r.chance(150) { r.range(1, 8) as u32 } else { 0 } }
}
fn c16(r: &mut Rng, p: &mut Plan) {
    let n = r.range(1, 5) as usize;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 12) {
            ops.push(match r.below(12) {
                0 => parse_op(r, 0, 1),
                1 => Op::Generate { take: 52, how: r.below(16) as u8, alloc: 0 },
                2 => Op::Fmt { val: Val::Card(r.below(52) as u8), debug: r.chance(500), torn: 0, hooks: vec![], alloc: 0 },
                _ => make_op(r),
            });
        }
        p.threads.push(ops);
    }
    // every card, once more, in two ways
    for _ in 0..2 {
        p.tail.push(Op::Make { cards: random_hand(r, 52), way: r.below(16) as u8, alloc: 0 });
    }
    p.env = env(r, n, Load::Tiny);
}
fn order_op(r: &mut Rng, depth: u32) -> Op {
    let mut hooks = vec![];
    if depth > 0 && r.chance(300) {
        let act = match r.below(6) {
            0 => Act::Panic,
            1 => Act::Stall(*r.pick(&[0u32, 1, 5])),
            2 => Act::Yield,
            _ => Act::Call(Box::new(if r.chance(300) { make_op(r) } else { order_op(r, depth - 1) })),
        };
        hooks.push(Hk { at: r.range(1, 40) as u32, act });
    }
    let how = if hooks.is_empty() { r.below(13) as u8 } else { 2 + r.below(2) as u8 };
    let mut cards = card_list(r);
    if how == 10 && r.chance(800) {
        cards.truncate(8);
    }
    Op::Order { cards, how, hooks }
}
fn c17(r: &mut Rng, p: &mut Plan) {
    let n = r.range(1, 5) as usize;
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 14) {
            ops.push(if r.chance(60) { make_op(r) } else { order_op(r, 2) });
        }
        p.threads.push(ops);
    }
    if r.chance(100) {
        p.tail.push(Op::Order { cards: (0..52).collect(), how: 10, hooks: vec![] });
    }
    p.tail.push(Op::Order { cards: random_hand(r, 52), how: r.below(10) as u8, hooks: vec![] });
    p.env = env(r, n, Load::Tiny);
}
/// Long use: many calls of one kind, or of all, on several threads.
fn c20(r: &mut Rng, p: &mut Plan) {
    if r.chance(100) {
        // no evaluator but those of the loop
        p.threads.push(vec![Op::Soak { slot: 0, kind: 11, seed: r.next(), n: r.range(600, 1800) as u32 }]);
        p.env = env(r, 1, Load::Heavy);
        p.env.ent_hard_after = 0;
        return;
    }
    p.setup.push(new_op(0));
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let soak = |r: &mut Rng| {
        let kind = r.below(13) as u8;
        let n = match kind {
            // dear ones
            0 | 9 | 12 => r.range(300, 1200),
            7 | 11 => r.range(600, 1800),
            _ => r.range(600, 3000),
        } as u32;
        Op::Soak { slot: r.below(2) as u8, kind, seed: r.next(), n }
    };
    for _ in 0..n {
        let mut ops = vec![soak(r)];
        if r.chance(300) {
            ops.push(a_hand_op(r));
            ops.push(soak(r));
        }
        p.threads.push(ops);
    }
    if r.chance(300) {
        p.tail.push(Op::Churn { slot: r.below(2) as u8, kind: r.below(13) as u8, seed: r.next(), n: r.range(4, 60) as u32, threads: 5 + r.below(4) as u32 });
    }
    p.env = env(r, n, Load::Heavy);
    p.env.ent_hard_after = 0;
}
fn a_hand_op(r: &mut Rng) -> Op { eval_op(r, 0) }
