//! Generators of well-formed HTTP/1 elements together with the transcript they have to give.

use crate::dict;
use crate::h1::*;
use crate::tape::Src;

#[derive(Default, Clone)]
pub struct Msg {
    pub wire: Vec<u8>,
    pub t: T,
}

pub fn is_token(b: u8) -> bool {
    matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_'
        | b'`' | b'|' | b'~' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z')
}

/// Bytes of an unquoted header value.
pub fn is_field(b: u8) -> bool {
    b == b'\t' || (0x20..=0x7E).contains(&b) && b != b'"' || b >= 0x80
}

/// Bytes of a quoted string, without those that need an escape.
pub fn is_quoted(b: u8) -> bool {
    is_field(b) && b != b'\\'
}

pub const METHODS: [&str; 9] =
    ["GET", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "HEAD", "TRACE", "PRI"];
const ODD_METHODS: [&str; 24] = [
    "H", "HT", "HTT", "HTTP", "HTTPS", "HE", "HEA", "HEADX", "HX", "HTX", "HTTX", "HTTPX", "GE", "GETX",
    "P", "PU", "POS", "PATCH", "DELETES", "CONNEC", "OPTIONSX", "TRAC", "PRIX", "A",
];

/// A long length, often next to a power of two.
fn long(s: &mut Src, lo: usize, hi: usize) -> usize {
    if s.chance(112) {
        s.range(lo, hi)
    } else if s.chance(32) {
        dict::length(s, hi).max(lo)
    } else {
        let r = (64usize << s.below(11)) - 1 + s.below(3);
        r.max(lo)
    }
}

pub fn method(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[100, 70, 60, 20, 3, 30]) {
        5 => dict::method(s),
        0 => s.pick(&METHODS).as_bytes().to_vec(),
        1 => s.pick(&ODD_METHODS).as_bytes().to_vec(),
        2 => {
            let n = s.range(1, 8);
            (0..n).map(|_| b'A' + s.below(26) as u8).collect()
        }
        3 => {
            // a known method with one letter changed, dropped or repeated
            let mut m = s.pick(&METHODS).as_bytes().to_vec();
            let i = s.below(m.len());
            match s.below(3) {
                0 => m[i] = b'A' + s.below(26) as u8,
                1 => {
                    m.remove(i);
                }
                _ => {
                    let c = m[i];
                    m.insert(i, c)
                }
            }
            m
        }
        _ => {
            let n = long(s, 20, 300);
            s.bulk(n).iter().map(|b| b'A' + b % 26).collect()
        }
    }
}

pub fn url(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[60, 60, 10, 1]) {
        0 => s.range(1, 4),
        1 => s.range(1, 24),
        2 => s.range(20, 200),
        _ => {
            let n = long(s, 200, 20000);
            return s.bulk(n).iter().map(|b| 0x21 + b % 94).collect();
        }
    };
    let mut v: Vec<u8> = match s.below(4) {
        0 => b"/".to_vec(),
        1 => vec![],
        2 => {
            let d = dict::visible(s);
            if s.chance(128) {
                return d;
            }
            d
        }
        _ => b"http://h/".to_vec(),
    };
    v.extend((0..n).map(|_| match s.below(3) {
        0 => b'a' + s.below(26) as u8,
        1 => 0x21 + s.below(94) as u8,
        _ => *s.pick(b"/?&=%#:;.~!HTP\"\\{|}"),
    }));
    v
}

/// One to three digits, and their value.
fn version_part(s: &mut Src) -> (Vec<u8>, u16) {
    let d: Vec<u8> = match s.weighted(&[80, 30, 30]) {
        0 => vec![b'0' + s.below(10) as u8],
        1 => (0..2).map(|_| b'0' + s.below(10) as u8).collect(),
        _ => (0..3).map(|_| b'0' + s.below(10) as u8).collect(),
    };
    let n = d.iter().fold(0u16, |a, &c| a * 10 + (c - b'0') as u16);
    (d, n)
}

pub fn version(s: &mut Src, m: &mut Msg, text_only: &mut Vec<u8>) {
    let (a, b) = match s.weighted(&[50, 15, 15, 60, 30]) {
        0 => ((b"1".to_vec(), 1), (b"1".to_vec(), 1)),
        1 => ((b"1".to_vec(), 1), (b"0".to_vec(), 0)),
        2 => ((b"2".to_vec(), 2), (b"0".to_vec(), 0)),
        3 => (version_part(s), version_part(s)),
        _ => ((b"1".to_vec(), 1), version_part(s)),
    };
    text_only.extend_from_slice(b"HTTP/");
    text_only.extend_from_slice(&a.0);
    text_only.push(b'.');
    text_only.extend_from_slice(&b.0);
    m.t.version(a.1, b.1);
}

pub const NAMES: [&str; 25] = [
    "Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Authorization", "Host",
    "User-Agent", "Upgrade", "Connection", "Content-Type", "Content-Length", "Cookie",
    "Cache-Control", "Content-Security-Policy", "Location", "Last-Modified", "Pragma", "Set-Cookie",
    "Transfer-Encoding", "X-Powered-By", "X-Forwarded-For", "X-Forwarded-Host", "X-XSS-Protection",
    "X-WebKit-CSP", "WWW-Authenticate",
];

const TOKENS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";

pub fn token(s: &mut Src, max: usize) -> Vec<u8> {
    if s.chance(16) {
        return dict::token(s);
    }
    let n = 1 + s.len(max - 1);
    if n > 200 {
        return s.bulk(n).iter().map(|b| TOKENS[*b as usize % TOKENS.len()]).collect();
    }
    (0..n)
        .map(|_| match s.below(3) {
            0 => b'a' + s.below(26) as u8,
            1 => b'A' + s.below(26) as u8,
            _ => *s.pick(TOKENS),
        })
        .collect()
}

pub fn header_name(s: &mut Src) -> Vec<u8> {
    let known = |s: &mut Src| s.pick(&NAMES).as_bytes().to_vec();
    match s.weighted(&[70, 15, 15, 30, 30, 20, 60, 24]) {
        0 => known(s),
        7 => dict::token(s),
        1 => known(s).to_ascii_lowercase(),
        2 => known(s).to_ascii_uppercase(),
        3 => {
            let mut n = known(s);
            for b in n.iter_mut() {
                if s.chance(64) {
                    *b ^= if b.is_ascii_alphabetic() { 0x20 } else { 0 };
                }
            }
            n
        }
        4 => {
            // one byte off a known name
            let mut n = known(s);
            let i = s.below(n.len());
            match s.below(4) {
                0 => n[i] = *s.pick(TOKENS),
                1 => {
                    n.remove(i);
                }
                2 => n.insert(i, *s.pick(TOKENS)),
                _ => n.push(*s.pick(TOKENS)),
            }
            if n.is_empty() {
                n.push(b'x');
            }
            n
        }
        5 => {
            let mut n = known(s);
            let i = s.range(1, n.len());
            n.truncate(i);
            n
        }
        _ => token(s, 2000),
    }
}

fn field_byte(s: &mut Src) -> u8 {
    match s.weighted(&[90, 40, 50, 30, 40, 6]) {
        0 => b'a' + s.below(26) as u8,
        1 => b'0' + s.below(10) as u8,
        2 => *s.pick(b" ,;=/()<>@[]{}?:\\-_.'*+~!#$%&^`|"),
        3 => b'A' + s.below(26) as u8,
        4 => 0x80 + s.below(128) as u8,
        _ => b'\t',
    }
}

fn quoted_byte(s: &mut Src) -> u8 {
    let b = field_byte(s);
    if is_quoted(b) {
        b
    } else {
        b'q'
    }
}

/// A value as it is on the wire (leading white space included), and as it is reported.
/// Escaped bytes 0x7B-0x7E are left out: known finding C03-ESCAPE.
pub fn header_value(s: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let mut wire = vec![];
    let mut val: Vec<u8> = vec![];
    let ws = match s.weighted(&[150, 50, 30]) {
        0 => 1,
        1 => 0,
        _ => s.below(5),
    };
    for _ in 0..ws {
        wire.push(if s.chance(50) { b'\t' } else { b' ' });
    }
    if s.chance(2) {
        let n = long(s, 100, 30000);
        let v: Vec<u8> = s
            .bulk(n)
            .iter()
            .map(|&b| if is_field(b) && b != b' ' && b != b'\t' { b } else { b'L' })
            .collect();
        wire.extend_from_slice(&v);
        return (wire, v);
    }
    let segments = s.weighted(&[20, 150, 40, 30, 16]);
    for _ in 0..segments {
        match s.weighted(&[150, 60, 30, 20]) {
            3 => {
                let d = dict::value(s);
                wire.extend_from_slice(&d);
                val.extend_from_slice(&d);
            }
            0 => {
                let n = s.len(200);
                for _ in 0..n {
                    let b = field_byte(s);
                    let b = if val.is_empty() && (b == b' ' || b == b'\t') { b'v' } else { b };
                    wire.push(b);
                    val.push(b);
                }
            }
            1 => {
                let mut q = vec![b'"'];
                let n = s.len(40);
                for _ in 0..n {
                    if s.chance(40) {
                        q.push(b'\\');
                        q.push(match s.below(3) {
                            0 => b'"',
                            1 => b'\\',
                            _ => s.range(0x20, 0x7A) as u8,
                        });
                    } else {
                        q.push(quoted_byte(s));
                    }
                }
                q.push(b'"');
                wire.extend_from_slice(&q);
                val.extend_from_slice(&q);
            }
            _ => {
                // folding: the line break and the first white space byte are not reported
                wire.extend_from_slice(b"\r\n");
                wire.push(if s.chance(100) { b'\t' } else { b' ' });
                let n = s.below(4);
                for _ in 0..n {
                    let b = if s.chance(60) { b' ' } else { field_byte(s) };
                    wire.push(b);
                    val.push(b);
                }
            }
        }
    }
    (wire, val)
}

pub fn header(s: &mut Src, m: &mut Msg) {
    let name = header_name(s);
    let (wire, val) = header_value(s);
    m.wire.extend_from_slice(&name);
    m.wire.push(b':');
    m.wire.extend_from_slice(&wire);
    m.wire.extend_from_slice(b"\r\n");
    m.t.data(HEADER_NAME, &name.to_ascii_lowercase());
    m.t.data(HEADER_VALUE, &val);
}

pub fn headers(s: &mut Src, m: &mut Msg) -> usize {
    let n = match s.weighted(&[400, 600, 500, 300, 60, 2]) {
        i @ 0..=3 => i,
        4 => s.range(4, 20),
        _ => {
            // more than anyone counts in a byte
            let n = s.range(90, 300);
            for i in 0..n {
                let f = format!("n{}: {}", i % 7, i);
                m.wire.extend_from_slice(f.as_bytes());
                m.wire.extend_from_slice(b"\r\n");
                let (a, b) = f.split_at(f.find(':').unwrap());
                m.t.data(HEADER_NAME, a.as_bytes());
                m.t.data(HEADER_VALUE, b[2..].as_bytes());
            }
            s.range(0, 2)
        }
    };
    for _ in 0..n {
        header(s, m);
    }
    m.wire.extend_from_slice(b"\r\n");
    m.t.mark(HEADERS_FINISHED);
    n
}

pub fn request_line(s: &mut Src, m: &mut Msg) {
    let meth = method(s);
    let u = url(s);
    m.t.data(METHOD, &meth);
    m.t.data(URL, &u);
    let mut line = meth;
    line.push(b' ');
    line.extend_from_slice(&u);
    line.push(b' ');
    version(s, m, &mut line);
    line.extend_from_slice(b"\r\n");
    m.t.mark(INITIAL_FINISHED);
    m.wire.extend_from_slice(&line);
}

pub fn request(s: &mut Src) -> Msg {
    let mut m = Msg::default();
    request_line(s, &mut m);
    headers(s, &mut m);
    m
}

pub fn status_line(s: &mut Src, m: &mut Msg) {
    let mut line = vec![];
    version(s, m, &mut line);
    let code = match s.weighted(&[60, 100]) {
        0 => *s.pick(&[200u16, 404, 301, 500, 100, 99, 10, 1, 0, 999, 900, 90, 9]),
        _ => s.below(1000) as u16,
    };
    m.t.status_code(code);
    line.extend_from_slice(format!(" {:03} ", code).as_bytes());
    let reason: Vec<u8> = match s.weighted(&[40, 30, 100, 2, 24]) {
        4 => dict::field(s),
        0 => s.pick(&["OK", "Not Found", "Moved Permanently"]).as_bytes().to_vec(),
        1 => vec![],
        2 => {
            let n = s.len(100);
            (0..n)
                .map(|_| match s.below(3) {
                    0 => b'a' + s.below(26) as u8,
                    1 => s.range(0x20, 0x7E) as u8,
                    _ => s.range(0x80, 0xFF) as u8,
                })
                .collect()
        }
        _ => {
            let n = long(s, 100, 20000);
            s.bulk(n).iter().map(|&b| if b > 0x1F && b != 0x7F { b } else { b'r' }).collect()
        }
    };
    m.t.data(STATUS, &reason);
    line.extend_from_slice(&reason);
    line.extend_from_slice(b"\r\n");
    m.t.mark(INITIAL_FINISHED);
    m.wire.extend_from_slice(&line);
}

pub fn response(s: &mut Src) -> Msg {
    let mut m = Msg::default();
    status_line(s, &mut m);
    headers(s, &mut m);
    m
}

/// Blank lines and white space before a head, which a parser that was initialised skips.
pub fn leading(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[600, 300, 100, 3]) {
        0 => return vec![],
        1 => return b"\r\n".to_vec(),
        2 => s.below(8),
        _ => {
            let n = s.len(300);
            return s.bulk(n).iter().map(|b| b"\r\n \t"[*b as usize % 4]).collect();
        }
    };
    (0..n).map(|_| *s.pick(b"\r\n \t")).collect()
}

pub fn head(s: &mut Src) -> Msg {
    if s.chance(90) {
        response(s)
    } else {
        request(s)
    }
}

// ---------------------------------------------------------------------------------------- chunked

pub fn extension(s: &mut Src, m: &mut Msg) {
    m.wire.push(b';');
    let ws = |s: &mut Src, w: &mut Vec<u8>| {
        if s.chance(60) {
            for _ in 0..s.range(1, 3) {
                w.push(*s.pick(b" \t"));
            }
        }
    };
    ws(s, &mut m.wire);
    let name = token(s, 300);
    m.wire.extend_from_slice(&name);
    m.t.data(EXT_NAME, &name.to_ascii_lowercase());
    if s.chance(170) {
        m.wire.push(b'=');
        ws(s, &mut m.wire);
        let mut w = vec![];
        let mut v = vec![];
        let segments = s.range(1, 3);
        for _ in 0..segments {
            if s.chance(100) {
                w.push(b'"');
                let n = s.len(40);
                for _ in 0..n {
                    if s.chance(50) {
                        let b = match s.below(3) {
                            0 => b'"',
                            1 => b'\\',
                            _ => s.range(0x20, 0x7E) as u8,
                        };
                        w.push(b'\\');
                        w.push(b);
                        v.push(b);
                    } else {
                        let b = quoted_byte(s);
                        w.push(b);
                        v.push(b);
                    }
                }
                w.push(b'"');
            } else {
                let d = if s.chance(16) { dict::field(s) } else { vec![] };
                let n = if d.is_empty() { 1 + s.len(300) } else { d.len() };
                for i in 0..n {
                    let mut b = if d.is_empty() { field_byte(s) } else { d[i] };
                    if b == b';' || w.is_empty() && !(0x21..=0x7E).contains(&b) {
                        b = b'e';
                    }
                    w.push(b);
                    v.push(b);
                }
            }
        }
        m.wire.extend_from_slice(&w);
        m.t.data(EXT_VALUE, &v);
    }
    m.t.mark(EXT_FINISHED);
}

/// Data that may look like the framing around it.
pub fn tricky_data(s: &mut Src, n: usize) -> Vec<u8> {
    if n > 400 {
        return s.bulk(n);
    }
    let mut v = vec![];
    while v.len() < n {
        match s.weighted(&[60, 20, 20, 40, 10, 2]) {
            5 => v.extend_from_slice(&dict::any(s)),
            0 => v.push(s.byte()),
            1 => v.extend_from_slice(b"\r\n"),
            2 => v.extend_from_slice(b"0\r\n\r\n"),
            3 => v.push(b'a' + s.below(26) as u8),
            _ => v.extend_from_slice(b"\r\n--"),
        }
    }
    v.truncate(n);
    v
}

pub fn chunk_size_text(s: &mut Src, n: usize) -> Vec<u8> {
    let mut digits: Vec<u8> = format!("{:x}", n).into_bytes();
    if s.chance(40) {
        let pad = s.below(9usize.saturating_sub(digits.len()));
        for _ in 0..pad {
            digits.insert(0, b'0');
        }
    }
    for d in digits.iter_mut() {
        if s.chance(128) {
            d.make_ascii_uppercase();
        }
    }
    digits
}

pub fn extensions(s: &mut Src, m: &mut Msg) -> usize {
    let n = match s.weighted(&[150, 50, 20, 10]) {
        3 => s.range(3, 6),
        n => n,
    };
    for _ in 0..n {
        extension(s, m);
    }
    n
}

/// A short chunk, or none.
pub fn chunked_start(s: &mut Src, m: &mut Msg) {
    if s.chance(128) {
        m.t.mark(CHUNK_BEGIN);
        m.t.chunk_length(3);
        m.t.mark(EXTS_FINISHED);
        m.t.data(CHUNK_DATA, b"abc");
        m.wire.extend_from_slice(b"3\r\nabc\r\n");
    }
}

/// The last chunk and the trailer.
pub fn last_chunk(s: &mut Src, m: &mut Msg) -> (usize, usize) {
    m.t.mark(CHUNK_BEGIN);
    m.t.chunk_length(0);
    let zeros = if s.chance(40) { s.range(1, 8) } else { 1 };
    m.wire.extend(std::iter::repeat(b'0').take(zeros));
    let exts = if s.chance(90) { s.range(1, 3) } else { 0 };
    for _ in 0..exts {
        extension(s, m);
    }
    if exts > 0 {
        m.t.mark(EXTS_FINISHED);
    }
    m.wire.extend_from_slice(b"\r\n");
    let h = headers(s, m);
    m.t.mark(BODY_FINISHED);
    (exts, h)
}

#[derive(Default, Clone)]
pub struct ChunkedInfo {
    pub chunks: usize,
    pub exts: usize,
    pub trailers: usize,
    pub big: bool,
}

pub fn chunked(s: &mut Src, big: bool) -> (Msg, ChunkedInfo) {
    let mut m = Msg::default();
    let mut i = ChunkedInfo::default();
    let n = match s.weighted(&[300, 900, 600, 300, 60, 4]) {
        4 => s.range(4, 12),
        5 => {
            let n = s.range(90, 300);
            for i in 0..n {
                m.t.mark(CHUNK_BEGIN);
                m.t.chunk_length(1 + i % 3);
                m.t.mark(EXTS_FINISHED);
                m.t.data(CHUNK_DATA, &b"xyz"[..1 + i % 3]);
                m.wire.extend_from_slice([&b"1\r\nx\r\n"[..], b"2\r\nxy\r\n", b"3\r\nxyz\r\n"][i % 3]);
            }
            i.chunks += n;
            s.range(0, 2)
        }
        n => n,
    };
    for _ in 0..n {
        let len = match s.weighted(&[200, 40, 10, if big { 2 } else { 0 }]) {
            0 => 1 + s.len(2000),
            1 if s.chance(32) => dict::length(s, 20000).max(1),
            1 => *s.pick(&[1, 9, 10, 11, 15, 16, 17, 31, 32, 255, 256, 257]),
            2 => s.range(1, 5000),
            _ => *s.pick(&[4095, 4096, 4097, 16383, 16384, 65535, 65536, 70000, 0x100000, 0x123456]),
        };
        i.big |= len > 5000;
        i.chunks += 1;
        let data = tricky_data(s, len);
        m.t.mark(CHUNK_BEGIN);
        let size = chunk_size_text(s, len);
        m.wire.extend_from_slice(&size);
        m.t.chunk_length(len);
        i.exts += extensions(s, &mut m);
        m.t.mark(EXTS_FINISHED);
        m.wire.extend_from_slice(b"\r\n");
        m.wire.extend_from_slice(&data);
        m.wire.extend_from_slice(b"\r\n");
        m.t.data(CHUNK_DATA, &data);
    }
    let (e, h) = last_chunk(s, &mut m);
    i.exts += e;
    i.trailers = h;
    (m, i)
}

// -------------------------------------------------------------------------------------- multipart

const BCHARS: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'()+_,-./:=? ";

pub fn boundary(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[6000, 8000, 1000, 20]) {
        0 => s.range(1, 3),
        1 => s.range(1, 30),
        2 => s.range(30, 70),
        // longer than the 70 bytes of RFC 2046
        _ => long(s, 71, 600).min(8192),
    };
    let mut b: Vec<u8> = match s.below(4) {
        // self-similar ones
        0 => (0..n).map(|_| *s.pick(b"ab")).collect(),
        1 => (0..n).map(|_| *s.pick(b"-a")).collect(),
        _ => (0..n).map(|_| *s.pick(BCHARS)).collect(),
    };
    if b.ends_with(b" ") {
        *b.last_mut().unwrap() = b'z';
    }
    b
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// Data of a part that ends with its delimiter: it has no delimiter in it, but nearly.
pub fn part_data(s: &mut Src, boundary: &[u8]) -> (Vec<u8>, bool) {
    let mut delim = b"\r\n--".to_vec();
    delim.extend_from_slice(boundary);
    let mut v: Vec<u8> = vec![];
    let mut near = false;
    let pieces = match s.weighted(&[30, 60, 60, 30]) {
        0 => 0,
        1 => s.range(1, 2),
        2 => s.range(1, 6),
        _ => s.range(4, 16),
    };
    for _ in 0..pieces {
        match s.weighted(&[40, 70, 10, 10, 10, 10, 20, 2, 4]) {
            8 => v.extend_from_slice(&dict::any(s)),
            0 => {
                let n = s.len(60);
                v.extend((0..n).map(|_| b'a' + s.below(26) as u8));
            }
            1 => {
                // a true prefix of the delimiter
                let n = s.range(1, delim.len() - 1);
                v.extend_from_slice(&delim[..n]);
                near = true;
            }
            2 => v.push(b'\r'),
            3 => v.push(b'\n'),
            4 => v.extend_from_slice(b"\r\n"),
            5 => v.push(b'-'),
            6 => {
                // the delimiter with one byte missing or changed
                let mut d = delim.clone();
                let i = s.below(d.len());
                if s.chance(128) {
                    d[i] = s.byte();
                } else {
                    d.remove(i);
                }
                v.extend_from_slice(&d);
                near = true;
            }
            _ => {
                let n = long(s, 100, 3000);
                v.extend_from_slice(&s.bulk(n));
            }
        }
        if s.chance(20) {
            let n = s.below(6);
            v.extend(s.bytes(n));
        }
    }
    // the delimiter must come right after the data and nowhere before
    loop {
        let mut w = v.clone();
        w.extend_from_slice(&delim);
        let p = find(&w, &delim).unwrap();
        if p == v.len() {
            return (v, near);
        }
        v.truncate(p);
    }
}

#[derive(Default, Clone)]
pub struct PartsInfo {
    pub parts: usize,
    pub near: bool,
    pub by_length: usize,
    pub headers: usize,
}

pub fn multipart(s: &mut Src, big: bool) -> (Msg, Plan, PartsInfo) {
    let b = boundary(s);
    let mut m = Msg::default();
    let mut info = PartsInfo::default();
    let mut lengths = vec![];
    let n = match s.weighted(&[60, 900, 600, 300, 60, 4]) {
        4 => s.range(4, 9),
        n => n,
    };
    m.wire.extend_from_slice(b"--");
    m.wire.extend_from_slice(&b);
    let n = if n == 5 {
        // many small parts, with and without a length
        let n = s.range(60, 280);
        for i in 0..n {
            m.wire.extend_from_slice(b"\r\n\r\n");
            m.t.mark(PART_BEGIN);
            m.t.mark(HEADERS_FINISHED);
            m.t.data(PART_DATA, &b"xy"[..i % 3]);
            m.wire.extend_from_slice(&b"xy"[..i % 3]);
            m.wire.extend_from_slice(b"\r\n--");
            m.wire.extend_from_slice(&b);
            lengths.push(if i % 5 == 0 { Some(i % 3) } else { None });
        }
        info.parts += n;
        s.range(0, 2)
    } else {
        n
    };
    for _ in 0..n {
        m.wire.extend_from_slice(b"\r\n");
        m.t.mark(PART_BEGIN);
        info.headers += headers(s, &mut m);
        let data = if s.chance(70) {
            info.by_length += 1;
            let d = if s.chance(100) {
                // may even contain delimiters
                let mut d = vec![];
                for _ in 0..s.below(5) {
                    let (p, _) = part_data(s, &b);
                    d.extend_from_slice(&p);
                    d.extend_from_slice(b"\r\n--");
                    d.extend_from_slice(&b);
                }
                d
            } else {
                let n = if big && s.chance(3) { long(s, 1000, 70000) } else { s.len(3000) };
                tricky_data(s, n)
            };
            lengths.push(Some(d.len()));
            d
        } else {
            lengths.push(None);
            let (d, near) = part_data(s, &b);
            info.near |= near;
            d
        };
        m.t.data(PART_DATA, &data);
        m.wire.extend_from_slice(&data);
        m.wire.extend_from_slice(b"\r\n--");
        m.wire.extend_from_slice(&b);
        info.parts += 1;
    }
    m.wire.extend_from_slice(b"--");
    m.t.mark(BODY_FINISHED);
    if lengths.iter().all(|l| l.is_none()) {
        lengths.clear();
    }
    let plan = Plan::multipart(&b, &lengths);
    (m, plan, info)
}

// ------------------------------------------------------------------------------------ URL encoded

pub fn escape(s: &mut Src, b: u8, out: &mut Vec<u8>) {
    let hex = |s: &mut Src, n: u8| {
        let c = b"0123456789abcdef"[n as usize];
        if s.chance(128) {
            c.to_ascii_uppercase()
        } else {
            c
        }
    };
    out.push(b'%');
    let h = hex(s, b >> 4);
    out.push(h);
    let l = hex(s, b & 15);
    out.push(l);
}

/// One encoding of `text`; `stop` bytes are always escaped.
pub fn encode(s: &mut Src, text: &[u8], stop: &[u8], out: &mut Vec<u8>) {
    // how many bytes are escaped that need not be: also none, for long runs of plain bytes
    let often = *s.pick(&[50, 50, 50, 2, 0]);
    for &b in text {
        let plain = (0x21..=0x7E).contains(&b) && b != b'%' && b != b'+' && !stop.contains(&b);
        if b == b' ' && !s.chance(90) {
            out.push(b'+');
        } else if plain && (often == 0 || !s.chance(often)) {
            out.push(b);
        } else {
            escape(s, b, out);
        }
    }
}

pub fn any_text(s: &mut Src, max: usize) -> Vec<u8> {
    if s.chance(16) {
        return dict::any(s);
    }
    if s.chance(12) {
        // a run of plain bytes, with something at its end or not
        let n = if s.chance(64) { dict::length(s, max.max(4096)) } else { s.len(max) };
        let mut v: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz"[i % 26]).collect();
        if s.chance(100) {
            v.push(*s.pick(b" +%&=;~/"));
        }
        return v;
    }
    let n = s.len(max);
    (0..n)
        .map(|_| match s.weighted(&[90, 30, 40, 40]) {
            0 => b'a' + s.below(26) as u8,
            1 => b' ',
            2 => s.byte(),
            _ => *s.pick(b"%+=&;?/\"'<>~!"),
        })
        .collect()
}

pub fn utf8_text(s: &mut Src, max: usize) -> String {
    if s.chance(16) {
        return String::from_utf8_lossy(&dict::value(s)).to_string();
    }
    if s.chance(12) {
        // a run of plain bytes, with something at its end or not
        let n = if s.chance(64) { dict::length(s, max.max(4096)) } else { s.len(max) };
        let mut v: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz"[i % 26]).collect();
        if s.chance(100) {
            v.push(*s.pick(b" +%&=;~/"));
        }
        return String::from_utf8(v).unwrap_or_default();
    }
    let n = s.len(max);
    (0..n)
        .map(|_| match s.weighted(&[90, 30, 20, 20, 40]) {
            0 => (b'a' + s.below(26) as u8) as char,
            1 => ' ',
            2 => s.below(128) as u8 as char,
            3 => *s.pick(&['é', 'ß', '€', '漢', '😀', '\u{80}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10FFFF}']),
            _ => *s.pick(b"%+=&;?/\"'<>~!") as char,
        })
        .collect()
}

pub struct Pair {
    pub name: Vec<u8>,
    pub value: Option<Vec<u8>>,
}

/// The transcript of pairs in the body parser; `last_empty`: nothing follows the last separator.
pub fn pairs_t(pairs: &[Pair], t: &mut T, last_empty: bool) {
    for (i, p) in pairs.iter().enumerate() {
        if last_empty && i + 1 == pairs.len() {
            break;
        }
        t.mark(URL_BEGIN);
        t.data(URL_NAME, &p.name);
        if let Some(ref v) = p.value {
            t.data(URL_VALUE, v);
        }
    }
}

pub fn url_encoded(s: &mut Src, big: bool) -> (Msg, Vec<Pair>) {
    let mut m = Msg::default();
    let mut pairs = vec![];
    let n = match s.weighted(&[100, 800, 600, 300, 80, 4]) {
        4 => s.range(4, 20),
        5 => {
            let n = s.range(90, 300);
            for i in 0..n {
                m.wire.extend_from_slice([&b"a=%41&"[..], b"b+;", b"=&"][i % 3]);
                pairs.push(match i % 3 {
                    0 => Pair { name: b"a".to_vec(), value: Some(b"A".to_vec()) },
                    1 => Pair { name: b"b ".to_vec(), value: None },
                    _ => Pair { name: vec![], value: Some(vec![]) },
                });
            }
            s.range(1, 3)
        }
        n => n,
    };
    let mut last_empty = false;
    for i in 0..n {
        if i > 0 {
            m.wire.push(*s.pick(b"&;"));
        }
        let before = m.wire.len();
        let max = if big && s.chance(2) { 30000 } else { 400 };
        let name = any_text(s, max);
        encode(s, &name, b"=&;", &mut m.wire);
        let value = if s.chance(180) {
            m.wire.push(b'=');
            let v = if max > 400 {
                let n = long(s, 1000, max);
                s.bulk(n)
            } else {
                any_text(s, max)
            };
            encode(s, &v, b"&;", &mut m.wire);
            Some(v)
        } else {
            None
        };
        last_empty = m.wire.len() == before;
        pairs.push(Pair { name, value });
    }
    pairs_t(&pairs, &mut m.t, last_empty);
    m.t.mark(BODY_FINISHED);
    (m, pairs)
}

// -------------------------------------------------------------------------------------- mutations

/// Change a message somewhere. Returns what was done.
pub fn mutate(s: &mut Src, w: &mut Vec<u8>) -> &'static str {
    let odd = |s: &mut Src| match s.weighted(&[60, 60, 40]) {
        0 => *s.pick(&[0, 1, 8, 9, 10, 11, 13, 0x1F, 0x20, 0x7F, 0x80, 0xFF, 0xFE]),
        1 => *s.pick(b"\r\n \t:;=\"\\/-%&+,(){}|~0AZaz"),
        _ => s.byte(),
    };
    let n = w.len();
    match s.weighted(&[100, 60, 40, 20, 20, 10, 6]) {
        6 => {
            let i = s.below(n + 1);
            let d = dict::any(s);
            w.splice(i..i, d);
            "insert a text"
        }
        0 if n > 0 => {
            let i = s.below(n);
            w[i] = odd(s);
            "substitute"
        }
        1 => {
            let i = s.below(n + 1);
            let b = odd(s);
            w.insert(i, b);
            "insert"
        }
        2 if n > 0 => {
            let i = s.below(n);
            w.remove(i);
            "delete"
        }
        3 if n > 0 => {
            let mut i = s.below(n);
            if s.chance(100) {
                // within or after something that needs what follows
                let from = s.below(n);
                if let Some(k) = (from..n).chain(0..from).find(|&k| b"%\\\"=;\r\n-+:".contains(&w[k])) {
                    i = (k + s.below(3)).min(n);
                }
            }
            w.truncate(i);
            "truncate"
        }
        4 if n > 1 => {
            let i = s.below(n - 1);
            w.swap(i, i + 1);
            "swap"
        }
        _ => {
            let i = s.below(n + 1);
            let j = s.range(i, n.min(i + 20));
            let c: Vec<u8> = w[i..j].to_vec();
            let k = s.below(w.len() + 1);
            for (x, b) in c.into_iter().enumerate() {
                w.insert(k + x, b);
            }
            "copy"
        }
    }
}
