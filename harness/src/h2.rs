//! Driver, generator and expected transcripts for the HTTP/2 parser.

use http_box::fsm::Success;
use http_box::http2::{HttpHandler, Parser, ParserState};

use crate::tape::{Rng, Src};

// Transcript alphabet: tags, plain numbers, and the bytes of payload data.
pub const TAG: u64 = 1 << 40;
pub const FRAME: u64 = TAG;
pub const DATA: u64 = TAG + 1;
pub const GO_AWAY: u64 = TAG + 2;
pub const DEBUG_DATA: u64 = TAG + 3;
pub const HEADERS: u64 = TAG + 4;
pub const FRAGMENT: u64 = TAG + 5;
pub const PING: u64 = TAG + 6;
pub const PRIORITY: u64 = TAG + 7;
pub const PUSH_PROMISE: u64 = TAG + 8;
pub const RST_STREAM: u64 = TAG + 9;
pub const SETTINGS: u64 = TAG + 10;
pub const UNSUPPORTED: u64 = TAG + 11;
pub const WINDOW_UPDATE: u64 = TAG + 12;
/// end of the payload data before it
pub const FIN: u64 = TAG + 13;

pub const TAGS: [&str; 14] = [
    "frame", "data", "go-away", "debug-data", "headers", "fragment", "ping", "priority", "push-promise", "rst-stream",
    "settings", "unsupported", "window-update", "fin",
];

fn is_data(tag: u64) -> bool {
    matches!(tag, DATA | DEBUG_DATA | FRAGMENT | PING | UNSUPPORTED)
}

pub fn show_t(t: &[u64]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] >= TAG {
            let tag = t[i];
            let mut j = i + 1;
            while j < t.len() && t[j] < TAG {
                j += 1;
            }
            if !s.is_empty() {
                s.push(' ');
            }
            s.push_str(TAGS[(tag - TAG) as usize]);
            if is_data(tag) {
                let bytes: Vec<u8> = t[i + 1..j].iter().map(|&x| x as u8).collect();
                s.push_str(&format!("({} bytes {})", bytes.len(), crate::tape::show(&bytes[..bytes.len().min(200)])));
            } else if tag != FIN {
                s.push_str(&format!("({:x?})", &t[i + 1..j]));
            }
            i = j;
        } else {
            s.push_str("?");
            i += 1;
        }
    }
    if s.len() > 6000 {
        s.truncate(6000);
    }
    s
}

#[derive(Clone, Default)]
pub struct T {
    pub t: Vec<u64>,
    open: u64,
}

impl T {
    #[inline]
    pub fn data(&mut self, tag: u64, bytes: &[u8], fin: bool) {
        if self.open != tag {
            self.t.push(tag);
            self.open = tag;
        }
        self.t.extend(bytes.iter().map(|&b| b as u64));
        if fin {
            self.t.push(FIN);
            self.open = 0;
        }
    }
    #[inline]
    pub fn nums(&mut self, tag: u64, n: &[u64]) {
        self.t.push(tag);
        self.t.extend_from_slice(n);
        self.open = 0;
    }
}

#[derive(Clone)]
pub enum Pause {
    Never,
    Always,
    Kinds(u32),
    Random(Rng, u32),
    Nth(Vec<usize>),
}

pub struct Rec {
    pub t: T,
    pub pause: Pause,
    pub paused: bool,
    pub late: bool,
    pub callbacks: usize,
    pub pauses: usize,
    pub data_bytes: usize,
    /// payload of the current frame that may still be reported
    pub left: u64,
    pub over: bool,
    pub cap: usize,
}

impl Rec {
    pub fn new(pause: Pause) -> Rec {
        Rec {
            t: T::default(),
            pause,
            paused: false,
            late: false,
            callbacks: 0,
            pauses: 0,
            data_bytes: 0,
            left: 0,
            over: false,
            cap: usize::MAX,
        }
    }

    #[inline]
    fn ask(&mut self, tag: u64) -> bool {
        if self.paused {
            self.late = true;
        }
        let stop = match self.pause {
            Pause::Never => false,
            Pause::Always => true,
            Pause::Kinds(k) => k >> (tag - TAG) & 1 == 1,
            Pause::Random(ref mut r, p) => ((r.next() >> 40 & 0xFF) as u32) < p,
            Pause::Nth(ref v) => v.contains(&self.callbacks),
        };
        self.callbacks += 1;
        if self.callbacks > self.cap {
            panic!("runaway: {} callbacks", self.callbacks);
        }
        if stop {
            self.paused = true;
            self.pauses += 1;
        }
        !stop
    }

    #[inline]
    fn payload(&mut self, tag: u64, d: &[u8], fin: bool) -> bool {
        self.t.data(tag, d, fin);
        self.data_bytes += d.len();
        if d.len() as u64 > self.left {
            self.over = true;
        }
        self.left = self.left.saturating_sub(d.len() as u64);
        self.ask(tag)
    }

    #[inline]
    fn nums(&mut self, tag: u64, n: &[u64]) -> bool {
        self.t.nums(tag, n);
        self.ask(tag)
    }
}

impl HttpHandler for Rec {
    fn on_data(&mut self, d: &[u8], fin: bool) -> bool {
        self.payload(DATA, d, fin)
    }
    fn on_frame_format(&mut self, len: u32, ty: u8, flags: u8, sid: u32) -> bool {
        self.left = len as u64;
        self.nums(FRAME, &[len as u64, ty as u64, flags as u64, sid as u64])
    }
    fn on_go_away(&mut self, sid: u32, code: u32) -> bool {
        self.nums(GO_AWAY, &[sid as u64, code as u64])
    }
    fn on_go_away_debug_data(&mut self, d: &[u8], fin: bool) -> bool {
        self.payload(DEBUG_DATA, d, fin)
    }
    fn on_headers(&mut self, e: bool, sid: u32, w: u8) -> bool {
        self.nums(HEADERS, &[e as u64, sid as u64, w as u64])
    }
    fn on_headers_fragment(&mut self, d: &[u8], fin: bool) -> bool {
        self.payload(FRAGMENT, d, fin)
    }
    fn on_ping(&mut self, d: &[u8], fin: bool) -> bool {
        self.payload(PING, d, fin)
    }
    fn on_priority(&mut self, e: bool, sid: u32, w: u8) -> bool {
        self.nums(PRIORITY, &[e as u64, sid as u64, w as u64])
    }
    fn on_push_promise(&mut self, sid: u32) -> bool {
        self.nums(PUSH_PROMISE, &[sid as u64])
    }
    fn on_rst_stream(&mut self, code: u32) -> bool {
        self.nums(RST_STREAM, &[code as u64])
    }
    fn on_settings(&mut self, id: u16, value: u32) -> bool {
        self.nums(SETTINGS, &[id as u64, value as u64])
    }
    fn on_unsupported(&mut self, d: &[u8], fin: bool) -> bool {
        self.payload(UNSUPPORTED, d, fin)
    }
    fn on_window_update(&mut self, n: u32) -> bool {
        self.nums(WINDOW_UPDATE, &[n as u64])
    }
}

pub struct Noop;
impl HttpHandler for Noop {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End {
    More,
    Err,
    Bad(String),
}

pub struct Out {
    pub t: Vec<u64>,
    pub end: End,
    pub count: usize,
    pub taken: usize,
    pub state: ParserState,
    pub pauses: usize,
    pub callbacks: usize,
}

impl Out {
    pub fn show(&self) -> String {
        format!("{:?} after {} bytes: {}", self.end, self.count, show_t(&self.t))
    }
}

pub fn feed<H: HttpHandler>(
    p: &mut Parser<H>,
    h: &mut H,
    slices: &[&[u8]],
    poke: bool,
    paused: &mut dyn FnMut(&mut H) -> bool,
    taken: &mut usize,
    after: &mut dyn FnMut(usize, &mut H),
) -> End {
    let mut place = crate::mem::Place::new();
    for (i, s) in slices.iter().enumerate() {
        let mut s: &[u8] = s;
        let mut own = i > 0;
        loop {
            let r = p.resume(h, if own { place.put(s) } else { s });
            own = true;
            let was_paused = paused(h);
            match r {
                Ok(Success::Eos(n)) => {
                    if n != s.len() {
                        return End::Bad(format!("Eos({}) for a slice of {} bytes", n, s.len()));
                    }
                    if was_paused {
                        return End::Bad("Eos although a callback asked to pause".into());
                    }
                    *taken += n;
                    break;
                }
                Ok(Success::Callback(n)) => {
                    if n > s.len() {
                        return End::Bad(format!("Callback({}) for a slice of {} bytes", n, s.len()));
                    }
                    if !was_paused {
                        return End::Bad("Callback although no callback asked to pause".into());
                    }
                    *taken += n;
                    s = &s[n..];
                    if s.is_empty() && !poke {
                        break;
                    }
                }
                Ok(Success::Finished(n)) => {
                    return End::Bad(format!("Finished({}): a stream of frames has no end", n));
                }
                Err(_) => {
                    if was_paused {
                        return End::Bad("error although a callback asked to pause".into());
                    }
                    return End::Err;
                }
                #[allow(unreachable_patterns)]
                _ => panic!("an outcome that is not documented"),
            }
        }
        after(i, h);
    }
    End::More
}

pub fn rec_paused(h: &mut Rec) -> bool {
    std::mem::replace(&mut h.paused, false)
}

pub fn run_on(p: &mut Parser<Rec>, rec: &mut Rec, slices: &[&[u8]], poke: bool) -> (Out, Vec<usize>) {
    let total: usize = slices.iter().map(|s| s.len()).sum();
    rec.cap = rec.callbacks + 256 + 8 * (total + slices.len());
    let start = p.byte_count();
    let pauses = rec.pauses;
    let mut taken = 0;
    let mut lens = vec![];
    let mut end = feed(p, rec, slices, poke, &mut rec_paused, &mut taken, &mut |_, h| lens.push(h.t.t.len()));
    let mut n = 0;
    while end == End::More && n < 64 {
        let before = rec.callbacks;
        end = feed(p, rec, &[b""], true, &mut rec_paused, &mut taken, &mut |_, _| {});
        n += 1;
        if rec.callbacks == before {
            break;
        }
    }
    if rec.late {
        end = End::Bad("a callback followed one that asked to pause".into());
    }
    let out = Out {
        t: rec.t.t.clone(),
        end,
        count: p.byte_count().wrapping_sub(start),
        taken,
        state: p.state(),
        pauses: rec.pauses - pauses,
        callbacks: rec.callbacks,
    };
    (out, lens)
}

pub fn run_with(rec: &mut Rec, slices: &[&[u8]], poke: bool) -> Out {
    let mut p: Parser<Rec> = Parser::new();
    run_on(&mut p, rec, slices, poke).0
}

pub fn run(slices: &[&[u8]]) -> Out {
    run_with(&mut Rec::new(Pause::Never), slices, false)
}

pub fn run_steps(slices: &[&[u8]]) -> (Vec<usize>, Out) {
    let mut p: Parser<Rec> = Parser::new();
    let (o, l) = run_on(&mut p, &mut Rec::new(Pause::Never), slices, false);
    (l, o)
}

pub fn run_noop(slices: &[&[u8]]) -> (End, usize, usize) {
    let mut p: Parser<Noop> = Parser::new();
    let mut taken = 0;
    let end = feed(&mut p, &mut Noop, slices, false, &mut |_| false, &mut taken, &mut |_, _| {});
    (end, p.byte_count(), taken)
}

// --------------------------------------------------------------------------------------- generator

#[derive(Clone, Default)]
pub struct Stream {
    pub wire: Vec<u8>,
    pub t: T,
    pub frames: usize,
    pub padded: usize,
    pub empty: usize,
    pub types: u32,
    pub big: bool,
}

/// A number of `bits` bits, often a special one.
pub fn number(s: &mut Src, bits: u32) -> u64 {
    let max = (1u64 << bits) - 1;
    match s.weighted(&[60, 60, 60, 20, 20, 8]) {
        5 => crate::dict::number(s) & max,
        0 => s.below(20) as u64 & max,
        1 => 1u64 << s.below(bits as usize),
        2 => s.u32() as u64 & max,
        3 => max - s.below(3) as u64,
        _ => {
            // different bytes, so that a swap shows
            0x0102_0304u64 & max
        }
    }
}

pub fn head(len: usize, ty: u8, flags: u8, raw_sid: u32) -> Vec<u8> {
    let mut w = vec![(len >> 16) as u8, (len >> 8) as u8, len as u8, ty, flags];
    w.extend_from_slice(&raw_sid.to_be_bytes());
    w
}

pub fn payload(s: &mut Src, big: bool) -> Vec<u8> {
    let n = match s.weighted(&[40, 150, 60, if big { 6 } else { 0 }]) {
        0 => 0,
        1 => s.len(300),
        2 if s.chance(16) => crate::dict::length(s, 20000),
        2 => *s.pick(&[1usize, 8, 9, 10, 255, 256, 257, 127, 128]),
        _ => s.range(1000, 70000),
    };
    match s.below(3) {
        _ if n > 300 => s.bulk(n),
        0 => {
            let mut v = s.bulk(n);
            if s.chance(16) {
                let d = crate::dict::any(s);
                let d = &d[..d.len().min(n)];
                v[..d.len()].copy_from_slice(d);
            }
            v
        }
        // looks like frames
        1 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(&[0, 0, 4, 8, 0, 0, 0, 0, 1, 0, 0, 0, 9]);
            }
            v.truncate(n);
            v
        }
        _ => vec![if n % 2 == 0 { 0 } else { 0xFF }; n],
    }
}

fn padding(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[60, 100, 30, 30]) {
        0 => 0,
        1 => s.below(10),
        2 => 255,
        _ => s.below(256),
    };
    match s.below(3) {
        0 => vec![0; n],
        1 => vec![0xA5; n],
        _ => s.bulk(n),
    }
}

pub const PADDED: u8 = 8;
pub const PRIO: u8 = 0x20;

pub fn sid31(s: &mut Src) -> u32 {
    // the reserved bit may be set
    (number(s, 31) as u32) | if s.chance(60) { 0x8000_0000 } else { 0 }
}

/// One well-formed frame of a type (10 and above: unknown) with the given flags.
pub fn frame_of(s: &mut Src, out: &mut Stream, ty: u8, flags: u8, big: bool) {
    let raw_sid = sid31(s);
    let mut body: Vec<u8> = vec![];
    let mut t = T::default();
    let pads = matches!(ty, 0 | 1 | 5) || ty > 9;
    let pad = if pads && flags & PADDED != 0 { Some(padding(s)) } else { None };
    if let Some(ref p) = pad {
        body.push(p.len() as u8);
        out.padded += 1;
    }
    match ty {
        0 => {
            let d = payload(s, big);
            out.empty += d.is_empty() as usize;
            body.extend_from_slice(&d);
            t.data(DATA, &d, true);
        }
        1 => {
            if flags & PRIO != 0 {
                let dep = sid31(s);
                let w = s.byte();
                body.extend_from_slice(&dep.to_be_bytes());
                body.push(w);
                t.nums(HEADERS, &[(dep >> 31) as u64, (dep & 0x7FFF_FFFF) as u64, w as u64]);
            } else if pad.is_some() {
                t.nums(HEADERS, &[0, 0, 0]);
            }
            let d = payload(s, big);
            out.empty += d.is_empty() as usize;
            body.extend_from_slice(&d);
            t.data(FRAGMENT, &d, true);
        }
        2 => {
            let dep = sid31(s);
            let w = s.byte();
            body.extend_from_slice(&dep.to_be_bytes());
            body.push(w);
            t.nums(PRIORITY, &[(dep >> 31) as u64, (dep & 0x7FFF_FFFF) as u64, w as u64]);
        }
        3 => {
            let c = number(s, 32) as u32;
            body.extend_from_slice(&c.to_be_bytes());
            t.nums(RST_STREAM, &[c as u64]);
        }
        4 => {
            // more than one setting: known finding K1
            if s.chance(200) {
                let id = number(s, 16) as u16;
                let v = number(s, 32) as u32;
                body.extend_from_slice(&id.to_be_bytes());
                body.extend_from_slice(&v.to_be_bytes());
                t.nums(SETTINGS, &[id as u64, v as u64]);
            }
        }
        5 => {
            let p = sid31(s);
            body.extend_from_slice(&p.to_be_bytes());
            t.nums(PUSH_PROMISE, &[(p & 0x7FFF_FFFF) as u64]);
            let d = payload(s, big);
            out.empty += d.is_empty() as usize;
            body.extend_from_slice(&d);
            t.data(FRAGMENT, &d, true);
        }
        6 => {
            let d = s.bytes(8);
            body.extend_from_slice(&d);
            t.data(PING, &d, true);
        }
        7 => {
            let last = sid31(s);
            let c = number(s, 32) as u32;
            body.extend_from_slice(&last.to_be_bytes());
            body.extend_from_slice(&c.to_be_bytes());
            t.nums(GO_AWAY, &[(last & 0x7FFF_FFFF) as u64, c as u64]);
            let d = payload(s, big);
            body.extend_from_slice(&d);
            if !d.is_empty() {
                t.data(DEBUG_DATA, &d, true);
            }
        }
        8 => {
            let n = sid31(s);
            body.extend_from_slice(&n.to_be_bytes());
            t.nums(WINDOW_UPDATE, &[(n & 0x7FFF_FFFF) as u64]);
        }
        9 => {
            let d = payload(s, big);
            out.empty += d.is_empty() as usize;
            body.extend_from_slice(&d);
            t.data(FRAGMENT, &d, true);
        }
        _ => {
            let d = payload(s, big);
            out.empty += d.is_empty() as usize;
            body.extend_from_slice(&d);
            t.data(UNSUPPORTED, &d, true);
        }
    }
    if let Some(p) = pad {
        body.extend_from_slice(&p);
    }
    out.big |= body.len() > 1000;
    out.types |= 1 << ty.min(10);
    out.frames += 1;
    out.wire.extend_from_slice(&head(body.len(), ty, flags, raw_sid));
    out.wire.extend_from_slice(&body);
    out.t.nums(FRAME, &[body.len() as u64, ty as u64, flags as u64, (raw_sid & 0x7FFF_FFFF) as u64]);
    out.t.t.extend_from_slice(&t.t);
}

pub fn frame(s: &mut Src, out: &mut Stream, big: bool) {
    let ty = match s.below(11) {
        10 => *s.pick(&[10u8, 11, 255, 0x80, 0x40, 0x20, 16, 100, 127, 200]),
        n => n as u8,
    };
    let flags = match s.below(4) {
        0 => 0,
        1 => *s.pick(&[1u8, 4, 8, 0x20, 0x28, 0x2C, 0x2D, 5, 9, 0xFF]),
        _ => s.byte(),
    };
    frame_of(s, out, ty, flags, big);
}

/// Lets out what is pending after an empty payload.
pub fn sentinel(out: &mut Stream) {
    out.wire.extend_from_slice(&head(8, 6, 0, 0));
    out.wire.extend_from_slice(b"sentinel");
    out.t.nums(FRAME, &[8, 6, 0, 0]);
    out.t.data(PING, b"sentinel", true);
}

pub fn stream(s: &mut Src, max: usize, big: bool) -> Stream {
    let mut out = Stream::default();
    let n = match s.weighted(&[90, 100, 40]) {
        0 => 1,
        1 => s.range(1, 4),
        _ => s.range(1, max),
    };
    for _ in 0..n {
        frame(s, &mut out, big);
    }
    sentinel(&mut out);
    out
}

/// The state after every slice, as long as more is expected.
pub fn run_states(slices: &[&[u8]], pause: Pause) -> Vec<ParserState> {
    let mut p: Parser<Rec> = Parser::new();
    let mut rec = Rec::new(pause);
    rec.cap = 256 + 8 * (slices.iter().map(|s| s.len()).sum::<usize>() + slices.len());
    let mut v = vec![];
    for s in slices {
        let mut s: &[u8] = s;
        loop {
            let r = p.resume(&mut rec, s);
            rec.paused = false;
            match r {
                Ok(Success::Eos(_)) => break,
                Ok(Success::Callback(n)) => s = &s[n.min(s.len())..],
                _ => return v,
            }
        }
        v.push(p.state());
    }
    v
}

/// The names of the documented states in which the byte at each offset of a well-formed stream may
/// be awaited.
pub fn states(wire: &[u8]) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    // states of elements of no bytes before the next byte
    let mut also: Vec<String> = vec![];
    let mut put = |also: &mut Vec<String>, name: String| {
        also.push(name);
        v.push(std::mem::replace(also, vec![]));
    };
    let mut at = 0;
    while at + 9 <= wire.len() {
        let len = (wire[at] as usize) << 16 | (wire[at + 1] as usize) << 8 | wire[at + 2] as usize;
        let (ty, flags) = (wire[at + 3], wire[at + 4]);
        for i in 1..4 {
            put(&mut also, format!("FrameLength{}", i));
        }
        put(&mut also, "FrameType".into());
        put(&mut also, "FrameFlags".into());
        for i in 1..5 {
            put(&mut also, format!("FrameStreamId{}", i));
        }
        at += 9;
        let mut left = len;
        let mut pad = 0;
        if flags & PADDED != 0 && (matches!(ty, 0 | 1 | 5) || ty > 9) {
            let name = match ty {
                0 => "DataPadLength",
                1 if flags & PRIO != 0 => "HeadersPadLengthWithPriority",
                1 => "HeadersPadLengthWithoutPriority",
                5 => "PushPromisePadLength",
                _ => "UnsupportedPadLength",
            };
            put(&mut also, name.into());
            pad = wire[at] as usize;
            left -= 1 + pad;
        }
        let fixed: &[(&str, usize)] = match ty {
            1 if flags & PRIO != 0 => &[("HeadersStreamId", 4), ("HeadersWeight", 0)],
            2 => &[("PriorityStreamId", 4), ("PriorityWeight", 0)],
            3 => &[("RstStreamErrorCode", 4)],
            4 if left > 0 => &[("SettingsId", 2), ("SettingsValue", 4)],
            5 => &[("PushPromiseStreamId", 4)],
            7 => &[("GoAwayStreamId", 4), ("GoAwayErrorCode", 4)],
            8 => &[("WindowUpdateIncrement", 4)],
            _ => &[],
        };
        for &(name, n) in fixed {
            if n == 0 {
                put(&mut also, name.into());
                left -= 1;
            }
            for i in 0..n {
                put(&mut also, format!("{}{}", name, i + 1));
                left -= 1;
            }
        }
        let data = match ty {
            0 => "DataData",
            1 | 5 | 9 => "HeadersFragment",
            6 => "PingData",
            7 => "GoAwayDebugData",
            _ if ty > 9 => "UnsupportedData",
            _ => "",
        };
        if data != "" {
            if left == 0 && ty != 7 {
                also.push(data.into());
            }
            for _ in 0..left {
                put(&mut also, data.into());
            }
        }
        if flags & PADDED != 0 && pad == 0 && (matches!(ty, 0 | 1 | 5) || ty > 9) {
            also.push("FramePadding".into());
        }
        for _ in 0..pad {
            put(&mut also, "FramePadding".into());
        }
        at += len;
    }
    also.push("FrameLength1".into());
    v.push(also);
    v
}
