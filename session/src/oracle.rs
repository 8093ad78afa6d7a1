//! Judges what a session showed.
use crate::{deals::Round, lines::Script, plan::*, refmodel as rm};

pub type Bad = (String, String);
fn bad<T>(c: &str, d: String) -> Result<T, Bad> { Err((c.into(), d)) }

/// What the program printed, and how much of it was visible at each read.
#[derive(Default, Debug)]
pub struct Seen {
    pub text: String,
    /// (input bytes taken before, output length before) of each read
    pub reads: Vec<(u64, usize)>,
    pub err: String,
    pub exit: i32,
    /// output length when the first output fault was delivered
    pub out_failed: Option<usize>,
    pub ent_failed: bool,
}

/// Remove colours and screen clearing.
pub fn plain(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1;
            }
            if j < b.len() && matches!(b[j], b'm' | b'J' | b'H') {
                i = j + 1;
                continue;
            }
        }
        let n = s[i..].chars().next().unwrap().len_utf8();
        o.push_str(&s[i..i + n]);
        i += n;
    }
    o
}
fn prompt(p: &Plan) -> &'static str {
    if p.prog == "repl" { "poker> " } else { ">>> " }
}
/// Remove the prompts a dumb terminal shows.
pub fn unprompt(s: &str, p: &Plan) -> String {
    if p.env.mode != 1 {
        return s.into();
    }
    let pr = prompt(p);
    let mut o = String::new();
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 {
            o.push('\n');
        }
        let mut l = l;
        while let Some(r) = l.strip_prefix(pr) {
            l = r;
        }
        o += l;
    }
    o
}

pub fn judge(p: &Plan, sc: &Script, seen: &Seen, notes: &mut Notes) -> Result<(), Bad> {
    let excused = seen.out_failed.is_some() || seen.ent_failed;
    if seen.exit >= 1000 {
        return bad("killed", format!("the program was killed by signal {}", seen.exit - 1000));
    }
    if seen.exit == 96 {
        return bad("does-not-end", "the program goes on asking after the input has ended".into());
    }
    if seen.exit == 97 {
        return bad("does-not-end", "the program prints without end".into());
    }
    if !excused && (seen.exit != 0 || seen.err.contains("panicked at")) {
        return bad("panic", format!("exit status {}: {}", seen.exit, first_lines(&seen.err)));
    }
    notes.dealt = unprompt(&plain(&seen.text), p).lines().any(|l| l.starts_with("[ "));
    if seen.ent_failed {
        notes.ent_failed += 1;
        // no entropy: no cards may be dealt from nowhere, and nothing else to judge
        return Ok(());
    }
    // a write may be cut inside a character
    let shown = |len: usize| {
        let mut len = len.min(seen.text.len());
        while !seen.text.is_char_boundary(len) {
            len -= 1;
        }
        unprompt(&plain(&seen.text[..len]), p)
    };
    let mut full = shown(seen.out_failed.unwrap_or(seen.text.len()));
    if seen.out_failed.is_some() {
        // a colour or a prompt may have been torn by the failure
        if let Some(e) = full.rfind('\x1b') {
            if full[e + 1..].chars().enumerate().all(|(i, c)| if i == 0 { c == '[' } else { c.is_ascii_digit() || c == ';' }) {
                full.truncate(e);
            }
        }
        let line = full.rfind('\n').map_or(0, |i| i + 1);
        if p.env.mode == 1 && prompt(p).starts_with(&full[line..]) {
            full.truncate(line);
        }
    }
    let full = full;
    let excuse = seen.out_failed.is_some();
    let reads = if excuse { &[][..] } else { &seen.reads[..] };
    if p.prog == "repl" {
        let r = repl(sc, &full, excuse)?;
        notes.answers += r as u64;
        let mut last = 0;
        for &(used, len) in reads {
            let due = sc.at.iter().filter(|&&a| a <= used).count();
            if due > r {
                break; // the session was over
            }
            // judged once per newly completed line
            if due == last {
                continue;
            }
            last = due;
            if repl_count(&sc.lines[..due], &shown(len)) < due {
                return bad("answer-late", format!("line {} was not yet answered when more input was asked for", due));
            }
        }
    } else {
        let steps = jacks(sc, &full, excuse, notes)?;
        let mut last = usize::MAX;
        for &(used, len) in reads {
            let due = sc.at.iter().filter(|&&a| a <= used).count();
            if due >= steps {
                break;
            }
            if due == last {
                continue;
            }
            last = due;
            let prompts = shown(len).lines().filter(|l| l.starts_with("Enter ")).count();
            if prompts < due + 1 {
                return bad("answer-late", format!("after line {due} more input was asked for without a question"));
            }
        }
    }
    Ok(())
}
fn first_lines(s: &str) -> String { s.lines().take(3).collect::<Vec<_>>().join(" | ") }

#[derive(Default, Clone, Debug)]
pub struct Notes {
    pub answers: u64,
    pub rounds: u64,
    pub refusals: u64,
    pub game_over: u64,
    pub swaps: u64,
    pub quits: u64,
    pub by_cat: [u64; 10],
    pub ent_failed: u64,
    /// the rounds of the last session
    pub log: Vec<Round>,
    pub dealt: bool,
}

// ------------------------------------------------------------- the prompt
const WELCOME: &str = "Welcome to the poker hand REPL!\nFor help, enter \"help\". To quit, enter \"quit\" or press CTRL+C.\n";
const HELP: &str = "
Enter a list of 5 or more space-separated cards to be evaluated as a hand.
Cards are two character strings, where the first character represents
the card rank, and the second character represents the card suit.

Valid ranks: one of [23456789TJQKA]
Valid suits: one of [chsd]

Example: poker> Tc Jc Qc Kc Ac

";
enum Ans {
    Text(String),
    Hand(Vec<u8>),
}
fn answer(l: &str) -> Ans {
    if l == "help" {
        return Ans::Text(HELP.into());
    }
    let mut h = vec![];
    for t in l.split_whitespace() {
        match rm::parse(t) {
            Ok(c) => h.push(c),
            Err(e) => return Ans::Text(rm::parse_msg(t, &e) + "\n"),
        }
    }
    match rm::expect(&h) {
        rm::Expect::Ok(k) => Ans::Text(rm::name(k) + "\n"),
        rm::Expect::Few(n) => Ans::Text(rm::size_msg(n) + "\n"),
        _ => Ans::Hand(h),
    }
}
/// The length of the answer at the start of `t`, if it is right.
fn matches(l: &str, t: &str) -> Option<usize> {
    match answer(l) {
        Ans::Text(a) => {
            let a = plain(&a);
            t.starts_with(&a).then_some(a.len())
        }
        Ans::Hand(h) => {
            let n = t.find('\n')?;
            let ok = rm::dup_msg_ok(&t[..n], &h) || h.len() < 5 && t[..n] == rm::size_msg(h.len());
            ok.then_some(n + 1)
        }
    }
}
fn want(l: &str) -> String {
    match answer(l) {
        Ans::Text(a) => a,
        Ans::Hand(h) => format!("the duplicate-cards message for {}", rm::texts(&h)),
    }
}
fn is_prefix_of_answer(l: &str, t: &str) -> bool {
    match answer(l) {
        Ans::Text(a) => plain(&a).starts_with(t),
        Ans::Hand(_) => !t.contains('\n'),
    }
}
fn repl_count(lines: &[String], t: &str) -> usize {
    let Some(mut t) = t.strip_prefix(WELCOME) else { return 0 };
    let mut n = 0;
    for l in lines {
        if l == "quit" {
            return usize::MAX;
        }
        match matches(l, t) {
            Some(k) => {
                t = &t[k..];
                n += 1;
            }
            None => break,
        }
    }
    n
}
fn repl(sc: &Script, full: &str, excuse: bool) -> Result<usize, Bad> {
    let Some(mut t) = full.strip_prefix(WELCOME) else {
        if excuse && WELCOME.starts_with(full) {
            return Ok(0);
        }
        return bad("no-welcome", format!("the session begins with {:?}", cut(full)));
    };
    let mut n = 0;
    for l in &sc.lines {
        if l == "quit" {
            break;
        }
        match matches(l, t) {
            Some(k) => t = &t[k..],
            None if excuse && is_prefix_of_answer(l, t) => return Ok(n),
            None => {
                return bad(
                    "wrong-answer",
                    format!("line {} {:?}: expected {:?}, got {:?}", n + 1, cut(l), cut(&want(l)), cut(t.split('\n').next().unwrap_or(""))),
                )
            }
        }
        n += 1;
    }
    if !t.is_empty() {
        return bad("extra-output", format!("after {n} lines were answered: {:?}", cut(t)));
    }
    Ok(n)
}
fn cut(s: &str) -> String {
    let mut o: String = s.chars().take(160).collect();
    if o.len() < s.len() {
        o += "...";
    }
    o
}

// ------------------------------------------------------------- the game
#[derive(Debug, Clone, PartialEq)]
enum Item {
    Wager(u128, u128),
    Swap,
    Hand(Vec<u8>, String),
    Verdict(bool),
    Won(u128),
    Over,
}
fn items(t: &str, excuse: bool) -> Result<Vec<Item>, Bad> {
    let mut v = vec![];
    let t = if excuse && !t.ends_with('\n') { &t[..t.rfind('\n').map_or(0, |i| i + 1)] } else { t };
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("Enter a wager. (Credits: ") {
            let p = r.strip_suffix(')').and_then(|r| r.split_once(", max: "));
            match p.and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))) {
                Some((a, b)) => v.push(Item::Wager(a, b)),
                None => return bad("bad-display", format!("the wager question reads {l:?}")),
            }
        } else if l == "Enter the cards' numbers you wish to swap, if any." {
            v.push(Item::Swap)
        } else if let Some(n) = l.strip_prefix("Winnings: ") {
            match n.parse() {
                Ok(n) => v.push(Item::Won(n)),
                Err(_) => return bad("bad-display", format!("the winnings read {l:?}")),
            }
        } else if l == "You got a better hand!" || l == "You got a worse hand..." {
            v.push(Item::Verdict(l.contains("better")))
        } else if l == "Game over!" {
            v.push(Item::Over)
        } else if l.starts_with('[') {
            match hand(l) {
                Some((h, n)) => v.push(Item::Hand(h, n)),
                None => return bad("bad-display", format!("the hand reads {l:?}")),
            }
        }
    }
    Ok(v)
}
fn hand(l: &str) -> Option<(Vec<u8>, String)> {
    let mut h = vec![];
    let mut l = l;
    while let Some(r) = l.strip_prefix("[ ") {
        let mut c = r.chars();
        let (a, b) = (c.next()?, c.next()?);
        let rank = rm::RANK_CH.iter().position(|&x| x == a)?;
        let suit = rm::SUIT_PRETTY.iter().position(|&x| x == b).or_else(|| rm::SUIT_CH.iter().position(|&x| x == b))?;
        h.push((rank * 4 + suit) as u8);
        l = c.as_str().strip_prefix(" ] ")?;
    }
    Some((h, l.strip_prefix('(')?.strip_suffix(')')?.to_string()))
}
fn check_hand(h: &[u8], name: &str) -> Result<rm::Key, Bad> {
    if h.len() != 5 || rm::has_dup(h) {
        return bad("not-five-cards", format!("the hand shown is {}", rm::texts(h)));
    }
    let k = rm::strength(rm::mask(h));
    if name != rm::name(k) {
        return bad("misnamed-hand", format!("{} is called {name:?}, and is {:?}", rm::texts(h), rm::name(k)));
    }
    Ok(k)
}
/// The published payout chart.
pub fn payout(wager: u128, k: rm::Key) -> u128 {
    let r = rm::nib(k, 0);
    match rm::cat(k) {
        8 if r == 12 => wager * if wager == 5 { 800 } else { 250 },
        8 => 50 * wager,
        7 => 25 * wager,
        6 => 9 * wager,
        5 => 6 * wager,
        4 => 4 * wager,
        3 => 3 * wager,
        2 => 2 * wager,
        1 if r >= 9 => wager,
        _ => 0,
    }
}
#[derive(Debug, Clone, PartialEq)]
struct May<T> {
    take: Option<T>,
    refuse: bool,
    quit: bool,
}
/// What may happen on a line at the wager question.
fn wager_line(l: &str, credits: u128) -> May<u128> {
    let t = l.trim();
    if l == "quit" {
        return May { take: None, refuse: false, quit: true };
    }
    let quit = t.eq_ignore_ascii_case("quit");
    let plain = !l.is_empty() && l.len() <= 30 && l.bytes().all(|b| b.is_ascii_digit()) && (l == "0" || !l.starts_with('0'));
    // unusual spellings of a number may be taken or refused
    let lax = t.strip_prefix('+').unwrap_or(t);
    let n: Option<u128> =
        (!lax.is_empty() && lax.bytes().all(|b| b.is_ascii_digit())).then(|| lax.parse().unwrap_or(u128::MAX));
    match n {
        Some(n) if (1..=5).contains(&n) && n <= credits => May { take: Some(n), refuse: !plain, quit },
        _ => May { take: None, refuse: true, quit },
    }
}
fn swap_line(l: &str) -> May<Vec<usize>> {
    let t = l.trim();
    if l == "quit" {
        return May { take: None, refuse: false, quit: true };
    }
    let quit = t.eq_ignore_ascii_case("quit");
    let mut v = vec![];
    let mut plain = l.split(' ').all(|w| w.is_empty() || matches!(w.as_bytes(), [b'1'..=b'5']));
    for w in l.split_whitespace() {
        let d = w.strip_prefix('+').unwrap_or(w);
        let n = (!d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())).then(|| d.parse::<u128>().unwrap_or(u128::MAX));
        match n {
            Some(n) if (1..=5).contains(&n) => {
                if v.contains(&(n as usize - 1)) {
                    return May { take: None, refuse: true, quit };
                }
                v.push(n as usize - 1)
            }
            _ => return May { take: None, refuse: true, quit },
        }
    }
    // an empty line that is not quite empty
    plain &= !(v.is_empty() && !l.chars().all(|c| c == ' '));
    May { take: Some(v), refuse: !plain, quit }
}

/// Returns after how many lines the session was over (lines + 1 if it ended
/// with the input).
fn jacks(sc: &Script, full: &str, excuse: bool, notes: &mut Notes) -> Result<usize, Bad> {
    let it = items(full, excuse)?;
    let mut at = 0;
    let mut line = 0;
    let mut credits: u128 = 100;
    let cut_here = |at: usize| excuse && at >= it.len();
    macro_rules! over {
        ($at:expr, $why:expr) => {
            if $at < it.len() {
                return bad("goes-on", format!("the session goes on after {}: {:?}", $why, it[$at]));
            }
        };
    }
    'game: loop {
        // the wager
        let wager = loop {
            if cut_here(at) {
                return Ok(line + 1);
            }
            match it.get(at) {
                Some(Item::Wager(c, m)) if *c == credits && *m == 5 => {}
                Some(Item::Wager(c, m)) => {
                    return bad("wrong-credits", format!("{c} credits shown (maximum wager {m}), there are {credits}; line {line}"))
                }
                x => return bad("no-question", format!("expected the wager question with {credits} credits after line {line}, got {x:?}")),
            }
            at += 1;
            let Some(l) = sc.lines.get(line) else {
                over!(at, "the input has ended");
                return Ok(line + 1);
            };
            line += 1;
            let may = wager_line(l, credits);
            match it.get(at) {
                _ if cut_here(at) => return Ok(line + 1),
                Some(Item::Wager(..)) if may.refuse => notes.refusals += 1,
                Some(Item::Hand(..)) if may.take.is_some() => break may.take.unwrap(),
                None if may.quit => {
                    notes.quits += 1;
                    return Ok(line);
                }
                x => {
                    return bad(
                        "wager-mishandled",
                        format!("at the wager question with {credits} credits the line {:?} led to {}", cut(l), what(x)),
                    )
                }
            }
        };
        credits -= wager;
        let Some(Item::Hand(h1, n1)) = it.get(at) else { unreachable!() };
        let k1 = check_hand(h1, n1)?;
        at += 1;
        // the swap
        let swaps = loop {
            if cut_here(at) {
                return Ok(line + 1);
            }
            if it.get(at) != Some(&Item::Swap) {
                return bad("no-question", format!("expected the swap question after line {line}, got {}", what(it.get(at))));
            }
            at += 1;
            let Some(l) = sc.lines.get(line) else {
                over!(at, "the input has ended");
                return Ok(line + 1);
            };
            line += 1;
            let may = swap_line(l);
            match it.get(at) {
                _ if cut_here(at) => return Ok(line + 1),
                Some(Item::Swap) if may.refuse => notes.refusals += 1,
                Some(Item::Hand(..)) if may.take.is_some() => break may.take.unwrap(),
                None if may.quit => {
                    notes.quits += 1;
                    return Ok(line);
                }
                x => return bad("swap-mishandled", format!("at the swap question the line {:?} led to {}", cut(l), what(x))),
            }
        };
        let Some(Item::Hand(h2, n2)) = it.get(at) else { unreachable!() };
        at += 1;
        let k = check_hand(h2, n2)?;
        for i in 0..5 {
            if !swaps.contains(&i) && h1[i] != h2[i] {
                return bad(
                    "kept-card-changed",
                    format!("card {} was not swapped, but {} became {}", i + 1, rm::texts(h1), rm::texts(h2)),
                );
            }
        }
        notes.swaps += swaps.len() as u64;
        notes.log.push(Round { wager, credits: credits + wager, first: h1.clone(), swaps: swaps.clone(), last: h2.clone() });
        notes.by_cat[if rm::cat(k) == 8 && rm::nib(k, 0) == 12 { 9 } else { rm::cat(k) as usize }] += 1;
        let win = payout(wager, k);
        if cut_here(at) {
            return Ok(line + 1);
        }
        let said = match it.get(at) {
            Some(&Item::Verdict(b)) => {
                at += 1;
                Some(b)
            }
            _ => None,
        };
        let due = match class_cmp(k, k1) {
            std::cmp::Ordering::Equal => None,
            c => Some(c == std::cmp::Ordering::Greater),
        };
        if said != due {
            let t = |x| ["worse than", "as good as", "better than"][match x { Some(false) => 0, None => 1, Some(true) => 2 }];
            return bad("wrong-verdict", format!("{n2} is called {} {n1}, and is {} it", t(said), t(due)));
        }
        if cut_here(at) {
            return Ok(line + 1);
        }
        match it.get(at) {
            Some(Item::Won(w)) if *w == win => {}
            x => {
                return bad(
                    "wrong-winnings",
                    format!("{n2} at a wager of {wager} pays {win} by the chart, but the game shows {}", what(x)),
                )
            }
        }
        at += 1;
        if win > 0 {
            credits += wager + win;
        }
        notes.rounds += 1;
        if credits == 0 {
            if it.get(at) == Some(&Item::Over) {
                at += 1;
            }
            over!(at, "the credits are gone");
            notes.game_over += 1;
            return Ok(line);
        }
        if it.get(at) == Some(&Item::Over) {
            return bad("ends-early", format!("the game is over with {credits} credits left"));
        }
        continue 'game;
    }
}
/// Classes compare by category, then by the ranks the class names.
fn class_cmp(a: rm::Key, b: rm::Key) -> std::cmp::Ordering {
    let n = |k: rm::Key| (rm::cat(k), rm::nib(k, 0), if matches!(rm::cat(k), 2 | 6) { rm::nib(k, 1) } else { 0 });
    n(a).cmp(&n(b))
}
fn what(x: Option<&Item>) -> String {
    match x {
        None => "the end of the session".into(),
        Some(i) => format!("{i:?}"),
    }
}
