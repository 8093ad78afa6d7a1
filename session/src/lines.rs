//! What lines the program receives: a model of reading lines from a pipe, and
//! of the small part of the line editor that the generator uses.
use crate::plan::*;

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub lines: Vec<String>,
    /// number of input bytes after which line i is complete (u64::MAX: only at
    /// the end of the input)
    pub at: Vec<u64>,
}

pub fn script(p: &Plan) -> Option<Script> {
    if p.env.mode == 2 { terminal(p) } else { Some(pipe(p)) }
}

fn pipe(p: &Plan) -> Script {
    let mut s = Script::default();
    let mut used = 0u64;
    let mut cur: Vec<u8> = vec![];
    let emit = |cur: &mut Vec<u8>, at: u64, s: &mut Script| -> bool {
        let b = std::mem::take(cur);
        let Ok(mut t) = String::from_utf8(b) else { return false };
        if t.ends_with('\n') {
            t.pop();
            if t.ends_with('\r') {
                t.pop();
            }
        }
        s.lines.push(backspaces(&t));
        s.at.push(at);
        true
    };
    for i in &p.ins {
        match i {
            In::Data(d) => {
                for &b in d {
                    used += 1;
                    cur.push(b);
                    if b == b'\n' && !emit(&mut cur, used, &mut s) {
                        return s;
                    }
                }
            }
            In::Eintr | In::Winch(_) => {}
            In::Eio | In::Eagain => return s,
            In::Eof => {
                if cur.is_empty() || !emit(&mut cur, u64::MAX, &mut s) {
                    return s;
                }
            }
        }
    }
    if !cur.is_empty() {
        emit(&mut cur, u64::MAX, &mut s);
    }
    s
}
/// A backspace takes back the character before it. (Plans only put it after
/// characters that stand for themselves.)
fn backspaces(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        if c == '\u{8}' {
            o.pop();
        } else {
            o.push(c);
        }
    }
    o
}

/// Key strokes at a terminal. None: outside what this model covers.
fn terminal(p: &Plan) -> Option<Script> {
    let mut s = Script::default();
    // flatten, keeping the places of faults
    let mut bytes: Vec<u8> = vec![];
    let mut bound = vec![]; // offsets at which a resize arrives
    let mut stop = None;
    for i in &p.ins {
        match i {
            In::Data(d) => {
                if d.is_empty() || d.len() > 900 {
                    return None;
                }
                if let Some(k) = d.iter().position(|&b| b == b'\r' || b == b'\n') {
                    if k + 1 != d.len() {
                        return None; // type-ahead is the line editor's business
                    }
                }
                bytes.extend(d);
            }
            In::Eintr => {}
            In::Winch(c) => {
                if *c < 20 {
                    return None;
                }
                bound.push(bytes.len());
            }
            In::Eio | In::Eagain | In::Eof => {
                bound.push(bytes.len());
                stop = Some(bytes.len());
                break;
            }
        }
    }
    if stop.is_none() {
        bound.push(bytes.len());
    }
    let mut starts = vec![false; bytes.len() + 1]; // key boundaries
    let mut line: Vec<char> = vec![];
    let mut pos = 0;
    let mut hist: Vec<String> = vec![];
    let mut hidx = 0;
    let mut saved: (Vec<char>, usize) = (vec![], 0);
    let mut i = 0;
    let mut paste = false;
    while i < bytes.len() {
        starts[i] = !paste;
        let b = bytes[i];
        let rest = &bytes[i..];
        if paste {
            if rest.starts_with(b"\x1b[201~") {
                paste = false;
                i += 6;
                continue;
            }
            if b < 0x20 || b == 0x7f {
                return None;
            }
            let (c, n) = ch(rest)?;
            line.insert(pos, c);
            pos += 1;
            i += n;
            continue;
        }
        match b {
            b'\r' | b'\n' => {
                let t: String = line.drain(..).collect();
                pos = 0;
                if p.prog == "repl" && !t.is_empty() && hist.last() != Some(&t) {
                    hist.push(t.clone());
                    if hist.len() > 100 {
                        hist.remove(0);
                    }
                }
                hidx = hist.len();
                s.lines.push(t);
                s.at.push(i as u64 + 1);
            }
            1 => pos = 0,
            5 => pos = line.len(),
            2 => pos = pos.saturating_sub(1),
            6 => pos = (pos + 1).min(line.len()),
            8 | 0x7f => {
                if pos > 0 {
                    pos -= 1;
                    line.remove(pos);
                }
            }
            4 => {
                if line.is_empty() {
                    return done(s, &starts, &bound, i);
                }
                if pos < line.len() {
                    line.remove(pos);
                }
            }
            3 => return done(s, &starts, &bound, i),
            0xb => line.truncate(pos),
            0x15 => {
                line.drain(..pos);
                pos = 0;
            }
            0xc => {}
            0x1b => {
                if rest.starts_with(b"\x1b[200~") {
                    paste = true;
                    i += 6;
                    continue;
                }
                match rest.get(1..3)? {
                    b"[D" => pos = pos.saturating_sub(1),
                    b"[C" => pos = (pos + 1).min(line.len()),
                    b"[H" => pos = 0,
                    b"[F" => pos = line.len(),
                    b"[A" => {
                        if !hist.is_empty() && hidx > 0 {
                            if hidx == hist.len() {
                                saved = (line.clone(), pos);
                            }
                            hidx -= 1;
                            line = hist[hidx].chars().collect();
                            pos = line.len();
                        }
                    }
                    b"[B" => {
                        if !hist.is_empty() && hidx < hist.len() {
                            hidx += 1;
                            if hidx < hist.len() {
                                line = hist[hidx].chars().collect();
                                pos = line.len();
                            } else {
                                (line, pos) = saved.clone();
                            }
                        }
                    }
                    _ => return None,
                }
                i += 3;
                continue;
            }
            0..=0x1f => return None,
            _ => {
                let (c, n) = ch(rest)?;
                line.insert(pos, c);
                pos += 1;
                i += n;
                continue;
            }
        }
        i += 1;
    }
    if paste {
        return None;
    }
    starts[bytes.len()] = true;
    done(s, &starts, &bound, bytes.len())
}
fn done(s: Script, starts: &[bool], bound: &[usize], end: usize) -> Option<Script> {
    bound.iter().all(|&b| b > end || starts[b]).then_some(s)
}
fn ch(b: &[u8]) -> Option<(char, usize)> {
    for n in 1..=4.min(b.len()) {
        if let Ok(t) = std::str::from_utf8(&b[..n]) {
            let c = t.chars().next()?;
            // characters that never combine with their neighbours
            return (c.is_ascii() || "éß♠♥٣你🂡".contains(c)).then_some((c, n));
        }
    }
    None
}
