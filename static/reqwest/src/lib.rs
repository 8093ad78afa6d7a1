//! Stand-in for `reqwest`, driven by the file named by POKER_SIM_NET. Lines:
//!   get TEXT        the request fails with TEXT (no name, refused, timeout ...)
//!   status N        status of the response (200 if absent)
//!   body FILE       content of the body
//!   cut N           the connection ends after N bytes of it
//!   noticed         ... and the client notices (length known, chunked, reset)
//!   length          the response has a Content-Length
//! Every request is appended to FILE.log, the script's own name with `.log`.
use std::{fmt, fs, io};

#[derive(Debug)]
pub struct Error(String);
impl Error {
    pub fn is_timeout(&self) -> bool { self.0.contains("timed out") }
    pub fn is_connect(&self) -> bool { self.0.contains("connect") }
    pub fn is_body(&self) -> bool { self.0.contains("body") }
    pub fn is_status(&self) -> bool { self.0.contains("status") }
    pub fn status(&self) -> Option<StatusCode> { None }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
    pub fn is_redirection(&self) -> bool { (300..400).contains(&self.0) }
    pub fn is_client_error(&self) -> bool { (400..500).contains(&self.0) }
    pub fn is_server_error(&self) -> bool { (500..600).contains(&self.0) }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool { self.0 == *o }
}

pub mod blocking {
    use super::*;

    #[derive(Debug)]
    pub struct Response {
        status: u16,
        body: Vec<u8>,
        error: bool,
        length: Option<u64>,
        at: usize,
    }
    pub fn get<U: AsRef<str>>(url: U) -> Result<Response> {
        let script = std::env::var("POKER_SIM_NET").map_err(|_| Error("error trying to connect: no network".into()))?;
        let text = fs::read_to_string(&script).map_err(|e| Error(format!("simulated network: {e}")))?;
        if let Ok(mut f) = fs::OpenOptions::new().append(true).create(true).open(format!("{script}.log")) {
            let _ = io::Write::write_all(&mut f, format!("{}\n", url.as_ref()).as_bytes());
        }
        let mut r = Response { status: 200, body: Vec::new(), error: false, length: None, at: 0 };
        let mut cut = None;
        let mut length = false;
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "get" => return Err(Error(v.into())),
                "status" => r.status = v.parse().unwrap_or(200),
                "body" => r.body = fs::read(v).map_err(|e| Error(format!("simulated network: {e}")))?,
                "cut" => cut = v.parse::<usize>().ok(),
                "noticed" => r.error = true,
                "length" => length = true,
                _ => {}
            }
        }
        if length {
            r.length = Some(r.body.len() as u64);
        }
        match cut {
            Some(n) if n < r.body.len() => r.body.truncate(n),
            _ => r.error = false,
        }
        Ok(r)
    }
    impl Response {
        fn ended(&self) -> Error { Error("error decoding response body: connection closed before message completed".into()) }
        pub fn status(&self) -> StatusCode { StatusCode(self.status) }
        pub fn content_length(&self) -> Option<u64> { self.length }
        pub fn error_for_status(self) -> Result<Response> {
            if self.status >= 400 { Err(Error(format!("HTTP status error ({})", self.status))) } else { Ok(self) }
        }
        pub fn error_for_status_ref(&self) -> Result<&Response> {
            if self.status >= 400 { Err(Error(format!("HTTP status error ({})", self.status))) } else { Ok(self) }
        }
        pub fn bytes(self) -> Result<Vec<u8>> { if self.error { Err(self.ended()) } else { Ok(self.body) } }
        pub fn text(self) -> Result<String> {
            if self.error { Err(self.ended()) } else { Ok(String::from_utf8_lossy(&self.body).into_owned()) }
        }
        pub fn copy_to<W: ?Sized + io::Write>(&mut self, w: &mut W) -> Result<u64> {
            io::copy(self, w).map_err(|e| Error(e.to_string()))
        }
    }
    impl io::Read for Response {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = b.len().min(self.body.len() - self.at).min(4096);
            if n == 0 && !b.is_empty() && self.error {
                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "connection closed before message completed"));
            }
            b[..n].copy_from_slice(&self.body[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
}
