//! A dictionary for the generators: texts and numbers of the HTTP world, and the literals of the library's source (build.rs).

use crate::tape::Src;
use std::fmt::Write;
use std::sync::OnceLock;

/// From the IANA registries and everyday traffic.
const WORLD: &[&str] = &[
    // methods
    "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR",
    "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "PATCH", "PROPFIND", "PROPPATCH", "PURGE", "REBIND", "REPORT", "SEARCH", "SUBSCRIBE", "UNBIND",
    "UNCHECKOUT", "UNLINK", "UNLOCK", "UNSUBSCRIBE", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL", "M-SEARCH", "QUERY", "get", "HTTPP",
    // header fields
    "A-IM", "Accept-Additions", "Accept-Datetime", "Accept-Features", "Accept-Patch", "Accept-Post", "Accept-Ranges",
    "Access-Control-Allow-Credentials", "Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Allow-Origin",
    "Access-Control-Expose-Headers", "Access-Control-Max-Age", "Access-Control-Request-Headers", "Access-Control-Request-Method", "Age",
    "Allow", "ALPN", "Alt-Svc", "Alt-Used", "Authentication-Info", "Cache-Status", "CDN-Loop", "Clear-Site-Data", "Close",
    "Content-Disposition", "Content-Encoding", "Content-ID", "Content-Language", "Content-Location", "Content-MD5", "Content-Range",
    "Content-Security-Policy-Report-Only", "Content-Transfer-Encoding", "Cookie2", "Cross-Origin-Embedder-Policy",
    "Cross-Origin-Opener-Policy", "Cross-Origin-Resource-Policy", "Date", "DAV", "Depth", "Destination", "DNT", "Early-Data", "ETag",
    "Expect", "Expect-CT", "Expires", "Forwarded", "From", "HTTP2-Settings", "If", "If-Match", "If-Modified-Since", "If-None-Match",
    "If-Range", "If-Unmodified-Since", "Keep-Alive", "Link", "Max-Forwards", "MIME-Version", "Origin", "P3P", "Permissions-Policy",
    "Prefer", "Priority", "Proxy-Authenticate", "Proxy-Authorization", "Proxy-Connection", "Public-Key-Pins", "Range", "Referer",
    "Referrer-Policy", "Refresh", "Retry-After", "Sec-CH-UA", "Sec-Fetch-Dest", "Sec-Fetch-Mode", "Sec-Fetch-Site", "Sec-WebSocket-Accept",
    "Sec-WebSocket-Extensions", "Sec-WebSocket-Key", "Sec-WebSocket-Protocol", "Sec-WebSocket-Version", "Server", "Server-Timing",
    "Set-Cookie2", "SourceMap", "Strict-Transport-Security", "TE", "Timing-Allow-Origin", "Traceparent", "Trailer", "Upgrade-Insecure-Requests",
    "Vary", "Via", "Warning", "X-Content-Type-Options", "X-Csrf-Token", "X-DNS-Prefetch-Control", "X-Forwarded-Proto", "X-Forwarded",
    "X-Frame-Options", "X-Http-Method-Override", "X-Real-IP", "X-Request-ID", "X-Requested-With", "X-UA-Compatible", "X-Content-Security-Policy",
    // values
    "chunked", "gzip, deflate, br", "identity", "close", "keep-alive", "100-continue", "no-cache", "max-age=0", "*/*", "text/html;q=0.9,*/*;q=0.8",
    "text/html; charset=utf-8", "application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=abc", "form-data; name=\"a\"; filename=\"b.txt\"",
    "attachment", "inline", "Basic QWxhZGRpbjpvcGVuIHNlc2FtZQ==", "Bearer a.b.c", "bytes=0-499", "W/\"a\"", "\"\"", "a=b; Path=/; HttpOnly", "h2c", "websocket",
    "localhost:8080", "127.0.0.1", "[::1]:80", "Sun, 06 Nov 1994 08:49:37 GMT", "0", "-1", "1", "65536", "4294967296", "Mozilla/5.0 (X11; Linux x86_64)",
    // targets
    "/", "*", "/index.html", "http://", "https://", "http://example.com/", "example.com:443", "/a?b=c&d=e#f", "//", "/..", "/%2e%2e/", "?", "#",
    // reason phrases
    "OK", "Created", "Accepted", "No Content", "Partial Content", "Moved Permanently", "Found", "See Other", "Not Modified", "Temporary Redirect",
    "Bad Request", "Unauthorized", "Forbidden", "Not Found", "Method Not Allowed", "Request Timeout", "Conflict", "Gone", "Length Required",
    "I'm a teapot", "Upgrade Required", "Too Many Requests", "Internal Server Error", "Not Implemented", "Bad Gateway", "Service Unavailable",
    "Gateway Timeout", "HTTP Version Not Supported", "Continue", "Switching Protocols",
    // what looks like something else
    "HTTP/1.1", "HTTP/2.0", "PRI * HTTP/2.0", "SM", "GET / HTTP/1.1", "HTTP/1.1 200 OK", "--", "----", "boundary", "charset", "filename", "filename*", "utf-8", "UTF-8''a", "q", "name",
    "expires", "path", "true", "false", "null", "%00", "%20", "%%", "%2B", "+", "&&", "=", ";", "&amp;", "\\", "\\\"", "a=b", "id", "page", "token", "_method",
];

pub struct Dict {
    all: Vec<Vec<u8>>,
    token: Vec<Vec<u8>>,
    method: Vec<Vec<u8>>,
    visible: Vec<Vec<u8>>,
    field: Vec<Vec<u8>>,
    value: Vec<Vec<u8>>,
    numbers: Vec<u64>,
    source: String,
}

pub fn is_token(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

fn is_value(t: &[u8]) -> bool {
    // complete, without quotes and without white space at the ends
    t.iter().all(|&b| b > 0x1F && b != 0x7F && b != b'"') && t[0] != b' ' && t[t.len() - 1] != b' '
}

/// The same, or with complete quoted strings in it.
fn is_quoted_value(t: &[u8]) -> bool {
    t.iter().all(|&b| b > 0x1F && b != 0x7F && b != b'\\')
        && t[0] != b' '
        && t[t.len() - 1] != b' '
        && t.iter().filter(|&&b| b == b'"').count() % 2 == 0
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let source = match std::env::var("VERIF_DICT") {
            Ok(f) => std::fs::read_to_string(f).expect("dictionary"),
            Err(_) => include_str!(concat!(env!("OUT_DIR"), "/dict.txt")).to_string(),
        };
        let mut d = Dict { all: vec![], token: vec![], method: vec![], visible: vec![], field: vec![], value: vec![], numbers: vec![], source: String::new() };
        let hex = |h: &str| (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Vec<u8>>();
        let mut texts: Vec<Vec<u8>> = WORLD.iter().map(|t| t.as_bytes().to_vec()).collect();
        for l in source.lines() {
            if let Some(h) = l.strip_prefix("dict-text ") {
                let t = hex(h);
                // formats are not of interest
                if t.is_empty() || t[0] == b'<' || t.windows(2).any(|w| w == b"{}") {
                    continue;
                }
                let _ = writeln!(d.source, "{}", l);
                texts.push(t);
            } else if let Some(n) = l.strip_prefix("dict-number ") {
                let n: u64 = n.trim().parse().expect("number");
                if n > 4 {
                    d.numbers.push(n);
                    let _ = writeln!(d.source, "{}", l);
                }
            }
        }
        if d.numbers.is_empty() {
            d.numbers.push(100);
        }
        for t in texts {
            let mut short: &[u8] = &t;
            while let Some((&b, rest)) = short.split_last() {
                if b"\r\n: ".contains(&b) {
                    short = rest;
                } else {
                    break;
                }
            }
            if !short.is_empty() {
                if short.iter().all(|&b| is_token(b)) {
                    d.token.push(short.to_vec());
                }
                if short.iter().all(|b| b.is_ascii_uppercase()) {
                    d.method.push(short.to_vec());
                }
                if short.iter().all(|&b| b > 0x20 && b < 0x7F) {
                    d.visible.push(short.to_vec());
                }
                if is_value(short) {
                    d.field.push(short.to_vec());
                }
                if is_quoted_value(short) {
                    d.value.push(short.to_vec());
                }
            }
            d.all.push(t);
        }
        d
    })
}

/// The part that comes from the source, for replay files.
pub fn source() -> &'static str {
    &dict().source
}

/// Any bytes.
pub fn any(s: &mut Src) -> Vec<u8> {
    s.pick(&dict().all).clone()
}

/// A text, or one that starts or ends like it, or one with a byte of `alphabet` in the wrong place.
fn near(s: &mut Src, texts: &[Vec<u8>], alphabet: &[u8]) -> Vec<u8> {
    let mut t = s.pick(texts).clone();
    let n = t.len();
    match s.weighted(&[150, 30, 20, 15, 15, 15]) {
        0 => (),
        1 => {
            let k = s.range(1, 3);
            for _ in 0..k {
                t.push(*s.pick(alphabet));
            }
        }
        2 => t.truncate(s.range(1, n)),
        3 => {
            let i = s.below(n);
            t[i] = *s.pick(alphabet);
        }
        4 => t.insert(0, *s.pick(alphabet)),
        _ => {
            for b in t.iter_mut() {
                if b.is_ascii_alphabetic() && s.chance(128) && alphabet.contains(&(*b ^ 0x20)) {
                    *b ^= 0x20;
                }
            }
        }
    }
    t
}

const UPPER: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const VISIBLE: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~/:=?;,";

/// Only token bytes.
pub fn token(s: &mut Src) -> Vec<u8> {
    near(s, &dict().token, &VISIBLE[..77])
}

/// Upper-case letters.
pub fn method(s: &mut Src) -> Vec<u8> {
    near(s, &dict().method, UPPER)
}

/// Visible 7-bit bytes.
pub fn visible(s: &mut Src) -> Vec<u8> {
    near(s, &dict().visible, VISIBLE)
}

fn trim(mut t: Vec<u8>) -> Vec<u8> {
    while t.last() == Some(&b' ') {
        t.pop();
    }
    t
}

/// Header field bytes without quotes, neither starting nor ending with white space.
pub fn field(s: &mut Src) -> Vec<u8> {
    trim(near(s, &dict().field, VISIBLE))
}

/// The same, also with complete quoted strings.
pub fn value(s: &mut Src) -> Vec<u8> {
    let t = near(s, &dict().value, VISIBLE);
    if t.iter().filter(|&&b| b == b'"').count() % 2 == 1 {
        return t.into_iter().filter(|&b| b != b'"').collect();
    }
    trim(t)
}

/// A length from the source up to `max`, or one next to it.
pub fn length(s: &mut Src, max: usize) -> usize {
    let n = number(s);
    if n > max as u64 {
        n as usize % (max + 1)
    } else {
        n as usize
    }
}

/// A number of the source, or one next to it.
pub fn number(s: &mut Src) -> u64 {
    let n = *s.pick(&dict().numbers);
    match s.below(3) {
        0 => n,
        1 => n.wrapping_add(1),
        _ => n.wrapping_sub(1),
    }
}
