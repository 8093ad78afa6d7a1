//! One session, completely described.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum In {
    /// bytes delivered by one read (percent-encoded where not printable ASCII)
    #[serde(with = "pct")]
    Data(Vec<u8>),
    /// the read is interrupted
    Eintr,
    /// the read fails
    Eio,
    /// the read would block
    Eagain,
    /// the read reports the end of input (a later one may yield more)
    Eof,
    /// the window is resized while waiting
    Winch(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Wf {
    pub nth: u32,
    pub kind: u32,
    pub arg: u32,
    pub sticky: bool,
}
impl Wf {
    pub fn hard(&self) -> bool { self.kind >= 3 }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Env {
    pub mode: u32,
    pub cols: u32,
    pub ent_seed: u64,
    pub hash_seed: u64,
    pub clock0: u64,
    pub clock_tick: u64,
    pub ent_eintr: u32,
    pub ent_short: u32,
    pub ent_enosys: u32,
    pub ent_nodev: u32,
    pub ent_hard_after: u32,
    pub ent_hard_errno: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub profile: String,
    /// "jacks" or "repl"
    pub prog: String,
    pub env: Env,
    pub ins: Vec<In>,
    pub wf: Vec<Wf>,
    /// the same again with this entropy
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub twin: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub violation: Option<(String, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hash: Option<String>,
}

pub type Hand = Vec<u8>;

pub mod pct {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::new();
        for &b in v {
            if (0x20..0x7f).contains(&b) && b != b'%' {
                o.push(b as char)
            } else {
                o += &format!("%{b:02x}")
            }
        }
        s.serialize_str(&o)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.as_bytes();
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() + 0 && b.len() >= i + 3 {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(serde::de::Error::custom)?);
                i += 3;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        Ok(o)
    }
}
