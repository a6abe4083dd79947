//! Driver for the HTTP/1 parser: a recording handler, and the loop a caller writes around resume().

use http_box::fsm::Success;
use http_box::http1::{HttpHandler, Parser, ParserError, ParserState};

use crate::tape::Rng;

// Transcript alphabet. Bytes of an element follow the tag of the element. Consecutive data of one
// element are one run, however many callbacks delivered it.
pub const METHOD: u16 = 0x100;
pub const URL: u16 = 0x101;
pub const VERSION: u16 = 0x102;
pub const STATUS_CODE: u16 = 0x103;
pub const STATUS: u16 = 0x104;
pub const INITIAL_FINISHED: u16 = 0x105;
pub const HEADER_NAME: u16 = 0x106;
pub const HEADER_VALUE: u16 = 0x107;
pub const HEADERS_FINISHED: u16 = 0x108;
pub const CHUNK_BEGIN: u16 = 0x109;
pub const CHUNK_LENGTH: u16 = 0x10A;
pub const EXT_NAME: u16 = 0x10B;
pub const EXT_VALUE: u16 = 0x10C;
pub const EXT_FINISHED: u16 = 0x10D;
pub const EXTS_FINISHED: u16 = 0x10E;
pub const CHUNK_DATA: u16 = 0x10F;
pub const PART_BEGIN: u16 = 0x110;
pub const PART_DATA: u16 = 0x111;
pub const URL_BEGIN: u16 = 0x112;
pub const URL_NAME: u16 = 0x113;
pub const URL_VALUE: u16 = 0x114;
pub const BODY_FINISHED: u16 = 0x115;

pub const TAGS: [&str; 22] = [
    "method", "url", "version", "status-code", "status", "initial-finished", "header-name",
    "header-value", "headers-finished", "chunk-begin", "chunk-length", "ext-name", "ext-value",
    "ext-finished", "exts-finished", "chunk-data", "part-begin", "part-data", "url-begin",
    "url-name", "url-value", "body-finished",
];

pub fn show_t(t: &[u16]) -> String {
    let mut s = String::new();
    let mut run: Vec<u8> = vec![];
    let mut tag = "";
    let mut any = false;
    let flush = |s: &mut String, tag: &str, run: &mut Vec<u8>, any: bool| {
        if any {
            if !s.is_empty() {
                s.push(' ');
            }
            s.push_str(tag);
            if tag == "version" || tag == "status-code" || tag == "chunk-length" {
                s.push_str(&format!("{:02x?}", run));
            } else if !run.is_empty() || tag == "header-value" {
                s.push('(');
                s.push_str(&crate::tape::show(run));
                s.push(')');
            }
            run.clear();
        }
    };
    for &x in t {
        if x >= 0x100 {
            flush(&mut s, tag, &mut run, any);
            tag = TAGS[(x - 0x100) as usize];
            any = true;
        } else {
            run.push(x as u8);
        }
    }
    flush(&mut s, tag, &mut run, any);
    if s.len() > 6000 {
        s.truncate(6000);
        s.push_str("...");
    }
    s
}

/// Builds a transcript, by the recording handler as well as by generators and models.
#[derive(Clone, Default)]
pub struct T {
    pub t: Vec<u16>,
    open: u16,
}

impl T {
    #[inline]
    pub fn data(&mut self, tag: u16, bytes: &[u8]) {
        if bytes.is_empty() && tag != HEADER_VALUE {
            return;
        }
        if self.open != tag {
            self.t.push(tag);
            self.open = tag;
        }
        self.t.extend(bytes.iter().map(|&b| b as u16));
    }

    #[inline]
    pub fn mark(&mut self, tag: u16) {
        self.t.push(tag);
        self.open = 0;
    }

    pub fn num(&mut self, tag: u16, n: u64, width: usize) {
        self.mark(tag);
        for i in (0..width).rev() {
            self.t.push((n >> (8 * i)) as u16 & 0xFF);
        }
    }

    pub fn version(&mut self, major: u16, minor: u16) {
        self.num(VERSION, (major as u64) << 16 | minor as u64, 4);
    }

    pub fn status_code(&mut self, code: u16) {
        self.num(STATUS_CODE, code as u64, 2);
    }

    pub fn chunk_length(&mut self, n: usize) {
        self.num(CHUNK_LENGTH, n as u64, 8);
    }

    /// What follows starts a new element.
    pub fn close(&mut self) {
        self.open = 0;
    }

    pub fn last_open(&self) -> u16 {
        self.open
    }
}

#[derive(Clone)]
pub enum Pause {
    Never,
    Always,
    /// callbacks of these tags (bit = tag - 0x100)
    Kinds(u32),
    /// p of 256 callbacks
    Random(Rng, u32),
    /// the callbacks with these numbers
    Nth(Vec<usize>),
}

pub struct Rec {
    pub t: T,
    /// one entry per callback: tag and data length or number
    pub raw: Option<Vec<(u16, u64)>>,
    pub pause: Pause,
    /// a callback returned false in the current call
    pub paused: bool,
    /// a callback came after one returned false in the same call
    pub late: bool,
    pub callbacks: usize,
    pub pauses: usize,
    pub data_bytes: usize,
    pub cap: usize,
    parts: Vec<Option<usize>>,
    part: usize,
    /// the headers of the part are complete, so the handler can know its content length
    known: bool,
}

impl Rec {
    pub fn new(parts: &[Option<usize>], pause: Pause) -> Rec {
        Rec {
            t: T::default(),
            raw: None,
            pause,
            paused: false,
            late: false,
            callbacks: 0,
            pauses: 0,
            data_bytes: 0,
            cap: usize::MAX,
            parts: parts.to_vec(),
            part: 0,
            known: false,
        }
    }

    #[inline]
    fn ask(&mut self, tag: u16, n: u64) -> bool {
        if self.paused {
            self.late = true;
        }
        if let Some(raw) = self.raw.as_mut() {
            raw.push((tag, n));
        }
        let stop = match self.pause {
            Pause::Never => false,
            Pause::Always => true,
            Pause::Kinds(k) => k >> (tag - 0x100) & 1 == 1,
            Pause::Random(ref mut r, p) => ((r.next() >> 40 & 0xFF) as u32) < p,
            Pause::Nth(ref v) => v.contains(&self.callbacks),
        };
        self.callbacks += 1;
        if self.callbacks > self.cap {
            panic!("runaway: {} callbacks", self.callbacks);
        }
        if stop {
            self.paused = true;
            self.pauses += 1;
        }
        !stop
    }

    #[inline]
    fn data(&mut self, tag: u16, d: &[u8]) -> bool {
        self.t.data(tag, d);
        self.data_bytes += d.len();
        self.ask(tag, d.len() as u64)
    }

    #[inline]
    fn mark(&mut self, tag: u16) -> bool {
        self.t.mark(tag);
        self.ask(tag, 0)
    }
}

impl HttpHandler for Rec {
    fn content_length(&mut self) -> Option<usize> {
        if !self.known || self.part == 0 || self.part > self.parts.len() {
            None
        } else {
            self.parts[self.part - 1]
        }
    }
    fn on_body_finished(&mut self) -> bool {
        self.mark(BODY_FINISHED)
    }
    fn on_chunk_begin(&mut self) -> bool {
        self.mark(CHUNK_BEGIN)
    }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool {
        self.data(CHUNK_DATA, d)
    }
    fn on_chunk_extension_finished(&mut self) -> bool {
        self.mark(EXT_FINISHED)
    }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool {
        self.data(EXT_NAME, d)
    }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool {
        self.data(EXT_VALUE, d)
    }
    fn on_chunk_extensions_finished(&mut self) -> bool {
        self.mark(EXTS_FINISHED)
    }
    fn on_chunk_length(&mut self, n: usize) -> bool {
        self.t.chunk_length(n);
        self.ask(CHUNK_LENGTH, n as u64)
    }
    fn on_header_name(&mut self, d: &[u8]) -> bool {
        self.data(HEADER_NAME, d)
    }
    fn on_header_value(&mut self, d: &[u8]) -> bool {
        self.data(HEADER_VALUE, d)
    }
    fn on_headers_finished(&mut self) -> bool {
        self.known = true;
        self.mark(HEADERS_FINISHED)
    }
    fn on_initial_finished(&mut self) -> bool {
        self.mark(INITIAL_FINISHED)
    }
    fn on_method(&mut self, d: &[u8]) -> bool {
        self.data(METHOD, d)
    }
    fn on_multipart_begin(&mut self) -> bool {
        self.part += 1;
        self.known = false;
        self.mark(PART_BEGIN)
    }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool {
        self.data(PART_DATA, d)
    }
    fn on_status(&mut self, d: &[u8]) -> bool {
        self.data(STATUS, d)
    }
    fn on_status_code(&mut self, n: u16) -> bool {
        self.t.status_code(n);
        self.ask(STATUS_CODE, n as u64)
    }
    fn on_url(&mut self, d: &[u8]) -> bool {
        self.data(URL, d)
    }
    fn on_url_encoded_begin(&mut self) -> bool {
        self.mark(URL_BEGIN)
    }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool {
        self.data(URL_NAME, d)
    }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool {
        self.data(URL_VALUE, d)
    }
    fn on_version(&mut self, major: u16, minor: u16) -> bool {
        self.t.version(major, minor);
        self.ask(VERSION, (major as u64) << 16 | minor as u64)
    }
}

/// A handler that implements nothing.
pub struct Noop;
impl HttpHandler for Noop {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Head,
    Chunked,
    Multipart,
    Url,
}

/// How a parser is set up for an element.
#[derive(Clone, Debug)]
pub struct Plan {
    pub mode: Mode,
    /// use Parser::new() as it is (heads only)
    pub fresh: bool,
    pub boundary: Option<Vec<u8>>,
    pub length: Option<usize>,
    /// content_length() answers by part number
    pub parts: Vec<Option<usize>>,
}

impl Plan {
    pub fn head(fresh: bool) -> Plan {
        Plan { mode: Mode::Head, fresh, boundary: None, length: None, parts: vec![] }
    }
    pub fn chunked() -> Plan {
        Plan { mode: Mode::Chunked, fresh: false, boundary: None, length: None, parts: vec![] }
    }
    pub fn multipart(boundary: &[u8], parts: &[Option<usize>]) -> Plan {
        Plan {
            mode: Mode::Multipart,
            fresh: false,
            boundary: Some(boundary.to_vec()),
            length: None,
            parts: parts.to_vec(),
        }
    }
    pub fn url(length: usize) -> Plan {
        Plan { mode: Mode::Url, fresh: false, boundary: None, length: Some(length), parts: vec![] }
    }

    pub fn init<'a, H: HttpHandler>(&'a self, p: &mut Parser<'a, H>) {
        if !self.fresh {
            match self.mode {
                Mode::Head => p.init_head(),
                Mode::Chunked => p.init_chunked(),
                Mode::Multipart => p.init_multipart(),
                Mode::Url => p.init_url_encoded(),
            }
        }
        if let Some(ref b) = self.boundary {
            p.set_boundary(b);
        }
        if let Some(l) = self.length {
            p.set_length(l);
        }
    }

    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self.mode);
        if self.fresh {
            s.push_str(" (Parser::new)");
        }
        if let Some(ref b) = self.boundary {
            s.push_str(&format!(" boundary {}", crate::tape::show(b)));
        }
        if let Some(l) = self.length {
            s.push_str(&format!(" length {}", l));
        }
        if !self.parts.is_empty() {
            s.push_str(&format!(" content lengths {:?}", self.parts));
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    ChunkExtensionName,
    ChunkExtensionValue,
    ChunkLength,
    CrlfSequence,
    Dead,
    HeaderName,
    HeaderValue,
    Method,
    MultipartBoundary,
    Status,
    StatusCode,
    Url,
    UrlEncodedName,
    UrlEncodedValue,
    Version,
    Other,
}

pub fn kind(e: &ParserError) -> (Kind, Option<u8>) {
    match *e {
        ParserError::ChunkExtensionName(b) => (Kind::ChunkExtensionName, Some(b)),
        ParserError::ChunkExtensionValue(b) => (Kind::ChunkExtensionValue, Some(b)),
        ParserError::ChunkLength(b) => (Kind::ChunkLength, Some(b)),
        ParserError::CrlfSequence(b) => (Kind::CrlfSequence, Some(b)),
        ParserError::Dead => (Kind::Dead, None),
        ParserError::HeaderName(b) => (Kind::HeaderName, Some(b)),
        ParserError::HeaderValue(b) => (Kind::HeaderValue, Some(b)),
        ParserError::Method(b) => (Kind::Method, Some(b)),
        ParserError::MultipartBoundary(b) => (Kind::MultipartBoundary, Some(b)),
        ParserError::Status(b) => (Kind::Status, Some(b)),
        ParserError::StatusCode(b) => (Kind::StatusCode, Some(b)),
        ParserError::Url(b) => (Kind::Url, Some(b)),
        ParserError::UrlEncodedName(b) => (Kind::UrlEncodedName, Some(b)),
        ParserError::UrlEncodedValue(b) => (Kind::UrlEncodedValue, Some(b)),
        ParserError::Version(b) => (Kind::Version, Some(b)),
        _ => (Kind::Other, None),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End {
    /// everything was taken and more is expected
    More,
    Finished,
    Err(Kind, Option<u8>),
    /// the call broke its contract
    Bad(String),
}

impl End {
    /// without the offending byte
    pub fn class(&self) -> End {
        match *self {
            End::Err(k, _) => End::Err(k, None),
            ref e => e.clone(),
        }
    }
}

/// The element whose data an error of this kind interrupts.
fn interrupted(k: Kind) -> u16 {
    match k {
        Kind::Method => METHOD,
        Kind::Url => URL,
        Kind::Status => STATUS,
        Kind::HeaderName => HEADER_NAME,
        Kind::HeaderValue => HEADER_VALUE,
        Kind::ChunkExtensionName => EXT_NAME,
        Kind::ChunkExtensionValue => EXT_VALUE,
        Kind::UrlEncodedName => URL_NAME,
        Kind::UrlEncodedValue => URL_VALUE,
        _ => 0,
    }
}

/// After an error, how much of the interrupted element itself was reported is not specified, so
/// that element is removed from the end of the transcript.
pub fn cut_interrupted(t: &mut Vec<u16>, end: &End) {
    if let End::Err(k, _) = *end {
        let tag = interrupted(k);
        if tag != 0 {
            let mut i = t.len();
            while i > 0 && t[i - 1] < 0x100 {
                i -= 1;
            }
            if i > 0 && t[i - 1] == tag {
                t.truncate(i - 1);
            }
        }
    }
}

pub struct Out {
    pub t: Vec<u16>,
    pub end: End,
    /// byte_count() at the end minus that at the start
    pub count: usize,
    /// sum of the bytes that successful calls reported
    pub taken: usize,
    /// bytes of the input that were not taken (after a finish)
    pub state: ParserState,
    pub pauses: usize,
    pub callbacks: usize,
}

impl Out {
    /// t with the interrupted element of an error removed
    pub fn norm(mut self) -> Out {
        cut_interrupted(&mut self.t, &self.end);
        self
    }
    pub fn show(&self) -> String {
        format!("{:?} after {} bytes: {}", self.end, self.count, show_t(&self.t))
    }
}

/// Feed slices to a parser as a caller does: after a pause, the rest of the slice again.
pub fn feed<H: HttpHandler>(
    p: &mut Parser<H>,
    h: &mut H,
    slices: &[&[u8]],
    poke: bool,
    paused: &mut dyn FnMut(&mut H) -> bool,
    taken: &mut usize,
    after: &mut dyn FnMut(usize, &mut H),
) -> End {
    let mut place = crate::mem::Place::new();
    for (i, s) in slices.iter().enumerate() {
        let mut s: &[u8] = s;
        let mut own = i > 0;
        loop {
            let r = p.resume(h, if own { place.put(s) } else { s });
            own = true;
            let was_paused = paused(h);
            match r {
                Ok(Success::Eos(n)) => {
                    if n != s.len() {
                        return End::Bad(format!("Eos({}) for a slice of {} bytes", n, s.len()));
                    }
                    if was_paused {
                        return End::Bad("Eos although a callback asked to pause".into());
                    }
                    *taken += n;
                    break;
                }
                Ok(Success::Callback(n)) => {
                    if n > s.len() {
                        return End::Bad(format!("Callback({}) for a slice of {} bytes", n, s.len()));
                    }
                    if !was_paused {
                        return End::Bad("Callback although no callback asked to pause".into());
                    }
                    *taken += n;
                    s = &s[n..];
                    if s.is_empty() && !poke {
                        break;
                    }
                }
                Ok(Success::Finished(n)) => {
                    if n > s.len() {
                        return End::Bad(format!("Finished({}) for a slice of {} bytes", n, s.len()));
                    }
                    if was_paused {
                        return End::Bad("Finished although a callback asked to pause".into());
                    }
                    *taken += n;
                    return End::Finished;
                }
                Err(e) => {
                    let (k, b) = kind(&e);
                    if was_paused {
                        return End::Bad("error although a callback asked to pause".into());
                    }
                    return End::Err(k, b);
                }
                #[allow(unreachable_patterns)]
                _ => panic!("an outcome that is not documented"),
            }
        }
        after(i, h);
    }
    End::More
}

fn rec_paused(h: &mut Rec) -> bool {
    std::mem::replace(&mut h.paused, false)
}

pub fn cap_for(len: usize, calls: usize) -> usize {
    256 + 8 * (len + calls)
}

/// Run one element through a new parser. An empty slice at the end lets pending callbacks out.
pub fn run_with(plan: &Plan, rec: &mut Rec, slices: &[&[u8]], poke: bool) -> Out {
    let mut p: Parser<Rec> = Parser::new();
    plan.init(&mut p);
    run_on(&mut p, rec, slices, poke)
}

pub fn run_on(p: &mut Parser<Rec>, rec: &mut Rec, slices: &[&[u8]], poke: bool) -> Out {
    let total: usize = slices.iter().map(|s| s.len()).sum();
    rec.cap = rec.callbacks + cap_for(total, slices.len());
    let start = p.byte_count();
    let pauses = rec.pauses;
    let mut taken = 0;
    let mut end = feed(p, rec, slices, poke, &mut rec_paused, &mut taken, &mut |_, _| {});
    let mut n = 0;
    while end == End::More && n < 64 {
        let before = rec.callbacks;
        end = feed(p, rec, &[b""], true, &mut rec_paused, &mut taken, &mut |_, _| {});
        n += 1;
        if rec.callbacks == before {
            break;
        }
    }
    if rec.late {
        end = End::Bad("a callback followed one that asked to pause".into());
    }
    Out {
        t: rec.t.t.clone(),
        end,
        count: p.byte_count().wrapping_sub(start),
        taken,
        state: p.state(),
        pauses: rec.pauses - pauses,
        callbacks: rec.callbacks,
    }
}

pub fn run_steps(plan: &Plan, slices: &[&[u8]]) -> (Vec<usize>, Out) {
    run_steps_with(plan, slices, Pause::Never)
}

/// The transcript length after each slice, and the final outcome. After a pause the rest of the slice
/// is given, even if nothing is left of it.
pub fn run_steps_with(plan: &Plan, slices: &[&[u8]], pause: Pause) -> (Vec<usize>, Out) {
    let mut p: Parser<Rec> = Parser::new();
    plan.init(&mut p);
    let mut rec = Rec::new(&plan.parts, pause);
    let total: usize = slices.iter().map(|s| s.len()).sum();
    rec.cap = cap_for(total, slices.len());
    let mut taken = 0;
    let mut lens = Vec::with_capacity(slices.len());
    let end = feed(&mut p, &mut rec, slices, true, &mut rec_paused, &mut taken, &mut |_, h| {
        lens.push(h.t.t.len())
    });
    let out = Out {
        t: rec.t.t.clone(),
        end,
        count: p.byte_count(),
        taken,
        state: p.state(),
        pauses: 0,
        callbacks: rec.callbacks,
    };
    (lens, out)
}

pub fn run(plan: &Plan, slices: &[&[u8]]) -> Out {
    run_with(plan, &mut Rec::new(&plan.parts, Pause::Never), slices, false)
}

/// The same history with a handler that implements nothing (`parts` must not give lengths).
pub fn run_noop(plan: &Plan, slices: &[&[u8]]) -> (End, usize, usize) {
    let mut p: Parser<Noop> = Parser::new();
    plan.init(&mut p);
    let mut taken = 0;
    let mut h = Noop;
    let mut end = feed(&mut p, &mut h, slices, false, &mut |_| false, &mut taken, &mut |_, _| {});
    if end == End::More {
        end = feed(&mut p, &mut h, &[b""], false, &mut |_| false, &mut taken, &mut |_, _| {});
    }
    (end, p.byte_count(), taken)
}

/// The state after every slice, as long as more is expected.
pub fn run_states(plan: &Plan, slices: &[&[u8]], pause: Pause) -> Vec<ParserState> {
    let mut p: Parser<Rec> = Parser::new();
    plan.init(&mut p);
    let mut rec = Rec::new(&plan.parts, pause);
    rec.cap = cap_for(slices.iter().map(|s| s.len()).sum(), slices.len());
    let mut v = vec![];
    for s in slices {
        let mut s: &[u8] = s;
        loop {
            let r = p.resume(&mut rec, s);
            rec.paused = false;
            match r {
                Ok(Success::Eos(_)) => break,
                Ok(Success::Callback(n)) => s = &s[n.min(s.len())..],
                _ => return v,
            }
        }
        v.push(p.state());
    }
    v
}
