//! Properties that span the modules: independence, states, texts.

use super::{h1p, h2p, no_enum, Prop};
use crate::ensure;
use crate::h1;
use crate::h1model::Model;
use crate::h2;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Src};
use http_box::fsm::Success;
use http_box::{http1, http2, util};
use std::collections::HashMap;
use std::fmt;

// ------------------------------------------------------------------------------------ independence

enum Conn<'a> {
    One(h1::Plan, http1::Parser<'a, h1::Rec>, h1::Rec),
    Two(http2::Parser<'a, h2::Rec>, h2::Rec),
}

/// What one call did, in one comparable text.
fn step(c: &mut Conn, data: &[u8]) -> (String, Option<usize>) {
    match *c {
        Conn::One(_, ref mut p, ref mut r) => {
            let res = p.resume(r, data);
            r.paused = false;
            let rest = match res {
                Ok(Success::Callback(n)) => Some(n.min(data.len())),
                _ => None,
            };
            (format!("{:?} {:?} {}", res, p.state(), p.byte_count()), rest)
        }
        Conn::Two(ref mut p, ref mut r) => {
            let res = p.resume(r, data);
            r.paused = false;
            let rest = match res {
                Ok(Success::Callback(n)) => Some(n.min(data.len())),
                _ => None,
            };
            (format!("{:?} {:?} {}", res, p.state(), p.byte_count()), rest)
        }
    }
}

fn transcript(c: &Conn) -> String {
    match *c {
        Conn::One(_, _, ref r) => h1::show_t(&r.t.t),
        Conn::Two(_, ref r) => h2::show_t(&r.t.t),
    }
}

struct Script {
    plan: Option<h1::Plan>,
    wire: Vec<u8>,
    cuts: Vec<usize>,
    pause1: h1::Pause,
    pause2: h2::Pause,
}

impl Script {
    fn open<'a>(&'a self) -> Conn<'a> {
        let cap = 4096 + 16 * (self.wire.len() + self.cuts.len());
        match self.plan {
            Some(ref plan) => {
                let mut p = http1::Parser::new();
                plan.init(&mut p);
                let mut r = h1::Rec::new(&plan.parts, self.pause1.clone());
                r.cap = cap;
                Conn::One(plan.clone(), p, r)
            }
            None => {
                let mut r = h2::Rec::new(self.pause2.clone());
                r.cap = cap;
                Conn::Two(http2::Parser::new(), r)
            }
        }
    }

    fn show(&self) -> String {
        match self.plan {
            Some(ref p) => h1p::describe(p, &self.wire, &self.cuts),
            None => h2p::describe(&self.wire, &self.cuts),
        }
    }

    /// The whole history alone.
    fn alone(&self) -> (Vec<String>, String) {
        let mut c = self.open();
        let mut log = vec![];
        for sl in slices(&self.wire, &self.cuts) {
            let mut sl: &[u8] = sl;
            loop {
                let (l, rest) = step(&mut c, sl);
                log.push(l);
                match rest {
                    Some(n) => sl = &sl[n..],
                    None => break,
                }
            }
        }
        let t = transcript(&c);
        (log, t)
    }
}

fn script(s: &mut Src, st: &mut Stats) -> Script {
    let (plan, wire) = if s.chance(90) {
        (None, h2p::any_stream(s, st))
    } else if s.chance(40) {
        let (p, w) = h1p::arbitrary(s, st);
        (Some(p), w)
    } else {
        let (p, w) = h1p::any_element(s, st, true);
        (Some(p), w)
    };
    let cuts = s.cuts(wire.len());
    let some = s.chance(80);
    let pause1 = if some { h1p::pause_plan(s, 20) } else { h1::Pause::Never };
    let pause2 = if some { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
    Script { plan, wire, cuts, pause1, pause2 }
}

fn c18(s: &mut Src, st: &mut Stats) -> Check {
    let n = s.range(2, 4);
    let scripts: Vec<Script> = (0..n).map(|_| script(s, st)).collect();
    let want: Vec<_> = scripts.iter().map(|x| x.alone()).collect();
    st.runs += n as u64;
    let all = |i: usize| {
        let mut t = format!("\n parser {}", i);
        for x in &scripts {
            t.push_str("\n  ");
            t.push_str(&x.show());
        }
        t
    };
    // calls of the parsers in any order, with the utilities in between
    let mut conns: Vec<Conn> = scripts.iter().map(|x| x.open()).collect();
    let mut logs: Vec<Vec<String>> = vec![vec![]; n];
    let mut queues: Vec<Vec<&[u8]>> = scripts
        .iter()
        .map(|x| {
            let mut q = slices(&x.wire, &x.cuts);
            q.reverse();
            q
        })
        .collect();
    loop {
        let open: Vec<usize> = (0..n).filter(|&i| !queues[i].is_empty()).collect();
        if open.is_empty() {
            break;
        }
        let i = open[s.below(open.len())];
        let sl = queues[i].pop().unwrap();
        let (l, rest) = step(&mut conns[i], sl);
        logs[i].push(l);
        if let Some(k) = rest {
            queues[i].push(&sl[k..]);
        }
        if s.chance(10) {
            let _ = util::decode(b"a%20b+c");
            let _ = util::QueryIterator::new(b"q=1&r=%41").count();
            let _ = util::FieldIterator::new(b"x=\"y\"; z", b';', true).count();
        }
    }
    st.runs += n as u64;
    st.nontrivial(scripts.iter().filter(|x| !x.wire.is_empty()).count() > 1, scripts.iter().flat_map(|x| x.wire.clone()).collect::<Vec<_>>().as_slice());
    st.class_if(scripts.iter().any(|x| x.plan.is_none()) && scripts.iter().any(|x| x.plan.is_some()), "http1 and http2");
    st.sample(|| all(0));
    for i in 0..n {
        ensure!(logs[i] == want[i].0, "interleaved {:?}\n alone {:?}{}", logs[i], want[i].0, all(i));
        let t = transcript(&conns[i]);
        ensure!(t == want[i].1, "interleaved {}\n alone {}{}", t, want[i].1, all(i));
    }
    // and again, after everything that happened before
    let again = scripts[0].alone();
    ensure!(again == want[0], "the second time {:?}\n the first time {:?}{}", again, want[0], all(0));
    // on several threads at once
    if s.chance(3) {
        st.class("threads");
        let got: Vec<_> = std::thread::scope(|sc| {
            let h: Vec<_> = scripts.iter().map(|x| sc.spawn(move || x.alone())).collect();
            h.into_iter().map(|h| h.join()).collect()
        });
        for (i, g) in got.into_iter().enumerate() {
            match g {
                Ok(g) => ensure!(g == want[i], "on its own thread {:?}\n alone {:?}{}", g, want[i], all(i)),
                Err(_) => return Err(format!("a thread panicked{}", all(i))),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ states

fn c19(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(80) {
        let wire = h2p::any_stream(s, st);
        let wire = &wire[..wire.len().min(2000)];
        st.nontrivial(wire.len() > 1, wire);
        st.sample(|| h2p::describe(wire, &[]));
        let single = h2::run_states(&slices(wire, &(0..=wire.len()).collect::<Vec<_>>()), h2::Pause::Never);
        for i in 0..4 {
            let cuts = s.cuts(wire.len());
            let pause = if i < 2 { h2::Pause::Never } else { h2p::pause_plan(s, 20) };
            let got = h2::run_states(&slices(wire, &cuts), pause);
            st.runs += 1;
            for (k, g) in got.iter().enumerate() {
                let at = cuts.get(k).cloned().unwrap_or(wire.len());
                ensure!(
                    single.get(at) == Some(g),
                    "state after {} bytes is {:?}, fed byte by byte {:?}\n {}", at, g, single.get(at), h2p::describe(wire, &cuts)
                );
            }
        }
        return Ok(());
    }
    let (plan, wire) = if s.chance(30) { h1p::arbitrary(s, st) } else { h1p::any_element(s, st, true) };
    let wire = &wire[..wire.len().min(2000)];
    st.nontrivial(wire.len() > 1, wire);
    st.sample(|| h1p::describe(&plan, wire, &[]));
    let single = h1::run_states(&plan, &slices(wire, &(0..=wire.len()).collect::<Vec<_>>()), h1::Pause::Never);
    for i in 0..4 {
        let cuts = s.cuts(wire.len());
        let pause = if i < 2 { h1::Pause::Never } else { h1p::pause_plan(s, 20) };
        let got = h1::run_states(&plan, &slices(wire, &cuts), pause);
        st.runs += 1;
        for (k, g) in got.iter().enumerate() {
            let at = cuts.get(k).cloned().unwrap_or(wire.len());
            ensure!(
                single.get(at) == Some(g),
                "state after {} bytes is {:?}, fed byte by byte {:?}\n {}", at, g, single.get(at), h1p::describe(&plan, wire, &cuts)
            );
        }
    }
    Ok(())
}

/// States a parser can be in while it waits for a byte, or after it has ended.
const H1_STATES: &[&str] = &[
    "Dead", "StripDetect", "RequestMethod", "RequestUrl1", "RequestUrl2", "RequestVersionPeriod", "RequestVersionCr",
    "ResponseVersionPeriod", "ResponseVersionSpace", "ResponseStatusCodeSpace", "ResponseStatus1", "ResponseStatus2",
    "InitialLf", "CheckHeaderName", "FirstHeaderName", "UpperHeaderName", "LowerHeaderName", "StripHeaderValue",
    "HeaderValue", "HeaderQuotedValue", "HeaderEscapedValue", "HeaderCr1", "HeaderLf1", "HeaderCr2", "HeaderLf2",
    "ChunkLengthCr", "StripChunkExtensionName", "UpperChunkExtensionName", "LowerChunkExtensionName",
    "StripChunkExtensionValue", "ChunkExtensionValue", "ChunkExtensionQuotedValue", "ChunkExtensionEscapedValue",
    "ChunkLengthLf", "ChunkData", "ChunkDataCr", "ChunkDataLf", "MultipartHyphen1", "MultipartHyphen2",
    "MultipartBoundary", "MultipartDataByByte", "MultipartDataByLength", "MultipartDataByLengthCr",
    "MultipartDataByLengthLf", "MultipartDataByByteLf", "MultipartBoundaryCr", "MultipartBoundaryLf", "MultipartEnd",
    "FirstUrlEncodedName", "UrlEncodedName", "UrlEncodedNameHex1", "UrlEncodedNameHex2", "UrlEncodedValue",
    "UrlEncodedValueHex1", "UrlEncodedValueHex2", "BodyFinished", "Finished",
];
const H2_STATES: &[&str] = &[
    "Dead", "FrameType", "FrameFlags", "FramePadding", "DataPadLength", "DataData", "GoAwayDebugData",
    "HeadersPadLengthWithPriority", "HeadersPadLengthWithoutPriority", "HeadersWeight", "HeadersFragment", "PingData",
    "PriorityWeight", "PushPromisePadLength", "UnsupportedPadLength", "UnsupportedData", "Finished",
];
/// The same, of numbered bytes.
const BYTES: &[&str] = &[
    "Detect", "RequestHttp", "RequestVersionMajor", "RequestVersionMinor", "ResponseVersionMajor", "ResponseVersionMinor",
    "ResponseStatusCode", "ChunkLength", "FrameLength", "FrameStreamId", "GoAwayStreamId", "GoAwayErrorCode",
    "HeadersStreamId", "PriorityStreamId", "PushPromiseStreamId", "RstStreamErrorCode", "SettingsId", "SettingsValue",
    "WindowUpdateIncrement",
];

/// States the documentation names; others are not judged.
fn documented(name: &str, plain: &[&str]) -> bool {
    plain.contains(&name) || BYTES.contains(&name.trim_end_matches(|c: char| c.is_ascii_digit()))
}

fn c41(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(80) {
        let m = h2::stream(s, 6, false);
        let wire = &m.wire[..m.wire.len().min(2000)];
        st.nontrivial(true, wire);
        st.sample(|| h2p::describe(wire, &[]));
        let want = h2::states(&m.wire);
        ensure!(want.len() == m.wire.len() + 1, "the layout of {} bytes has {} states", m.wire.len(), want.len());
        let cuts = s.cuts(wire.len());
        for cuts in [(0..=wire.len()).collect::<Vec<_>>(), cuts] {
            st.runs += 1;
            let got = h2::run_states(&slices(wire, &cuts), h2::Pause::Never);
            for (k, g) in got.iter().enumerate() {
                let at = cuts.get(k).cloned().unwrap_or(wire.len());
                let g = format!("{:?}", g);
                ensure!(
                    want[at].contains(&g) || !documented(&g, H2_STATES),
                    "state after {} bytes is {}, and not one of {:?}\n {}", at, g, want[at], h2p::describe(wire, &cuts)
                );
            }
        }
        return Ok(());
    }
    let (plan, wire) = if s.chance(30) { h1p::arbitrary(s, st) } else { h1p::any_element(s, st, true) };
    let wire = &wire[..wire.len().min(2000)];
    st.nontrivial(wire.len() > 1, wire);
    st.sample(|| h1p::describe(&plan, wire, &[]));
    // the states in which each byte may be awaited, up to where the specification ends
    let mut want = vec![];
    let mut m = Model::new(&plan);
    let limit = if plan.mode == h1::Mode::Url { plan.length.unwrap_or(0) } else { usize::MAX };
    for at in 0..=wire.len() {
        if m.unspecified || m.end != h1::End::More || at >= limit {
            break;
        }
        want.push(m.states());
        if at < wire.len() {
            m.step(wire[at]);
        }
    }
    let cuts = s.cuts(wire.len());
    for cuts in [(0..=wire.len()).collect::<Vec<_>>(), cuts] {
        st.runs += 1;
        let got = h1::run_states(&plan, &slices(wire, &cuts), h1::Pause::Never);
        for (k, g) in got.iter().enumerate() {
            let at = cuts.get(k).cloned().unwrap_or(wire.len());
            let g = format!("{:?}", g);
            if let Some(w) = want.get(at) {
                ensure!(
                    w.contains(&g) || !documented(&g, H1_STATES),
                    "state after {} bytes is {}, and not one of {:?}\n {}", at, g, w, h1p::describe(&plan, wire, &cuts)
                );
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- what callbacks may carry

const SEPARATORS: &[u8] = b"()<>@,;:\\\"/[]?={} \t";

fn token(b: u8) -> bool {
    (0x21..=0x7E).contains(&b) && !SEPARATORS.contains(&b)
}

/// The elements of an HTTP/1 transcript.
fn elements(t: &[u16]) -> Vec<(u16, Vec<u8>)> {
    let mut v: Vec<(u16, Vec<u8>)> = vec![];
    for &x in t {
        if x >= 0x100 {
            v.push((x, vec![]));
        } else if let Some(l) = v.last_mut() {
            l.1.push(x as u8);
        }
    }
    v
}

fn num(d: &[u8]) -> u64 {
    d.iter().fold(0, |n, &b| n << 8 | b as u64)
}

fn all(tag: u16, d: &[u8], f: fn(u8) -> bool) -> Check {
    match d.iter().find(|&&b| !f(b)) {
        Some(b) => Err(format!("the {} {} has the byte {:#04x}", h1::TAGS[(tag - 0x100) as usize], show(d), b)),
        None => Ok(()),
    }
}

fn clean_h1(plan: &h1::Plan, t: &[u16], wire: usize) -> Check {
    let v = elements(t);
    let mut part = 0;
    let mut left = 0;
    let mut decoded = 0;
    for (i, &(tag, ref d)) in v.iter().enumerate() {
        match tag {
            h1::METHOD => all(tag, d, |b| b.is_ascii_uppercase())?,
            h1::URL => all(tag, d, |b| (0x21..=0x7E).contains(&b))?,
            h1::STATUS => all(tag, d, |b| b > 0x1F && b != 0x7F)?,
            h1::HEADER_NAME | h1::EXT_NAME => all(tag, d, |b| token(b) && !b.is_ascii_uppercase())?,
            h1::HEADER_VALUE | h1::EXT_VALUE => all(tag, d, |b| b == b'\t' || b > 0x1F && b != 0x7F)?,
            h1::VERSION => ensure!(num(&d[..2]) < 1000 && num(&d[2..]) < 1000, "version {}.{}", num(&d[..2]), num(&d[2..])),
            h1::STATUS_CODE => ensure!(num(d) < 1000, "status code {}", num(d)),
            h1::CHUNK_LENGTH => {
                left = num(d);
                ensure!(left <= 0xFFFF_FFFF, "chunk length {}", left);
            }
            h1::CHUNK_DATA => {
                ensure!(d.len() as u64 <= left, "{} bytes of a chunk that has {} left", d.len(), left);
                left -= d.len() as u64;
            }
            h1::CHUNK_BEGIN => ensure!(left == 0, "a chunk begins before the one before it has its last {} bytes", left),
            h1::PART_BEGIN => part += 1,
            h1::PART_DATA => match plan.parts.get(part - 1).cloned().unwrap_or(None) {
                Some(n) => {
                    ensure!(d.len() <= n, "{} bytes of a part of length {}", d.len(), n);
                    ensure!(d.len() == n || i + 1 == v.len(), "only {} bytes of a part of length {}", d.len(), n);
                }
                None => {
                    let mut b = b"\r\n--".to_vec();
                    b.extend_from_slice(plan.boundary.as_ref().map_or(&[][..], |b| &b[..]));
                    ensure!(
                        b[2..].contains(&b'\r') || !d.windows(b.len()).any(|w| w == &b[..]),
                        "the part {} has the delimiter {}", show(d), show(&b)
                    );
                }
            },
            h1::URL_NAME | h1::URL_VALUE => {
                decoded += d.len();
                ensure!(decoded <= plan.length.unwrap_or(0).min(wire), "{} bytes decoded from a body of {}", decoded, plan.length.unwrap_or(0));
            }
            _ => {}
        }
    }
    Ok(())
}

fn clean_h2(t: &[u64]) -> Check {
    let mut i = 0;
    while i < t.len() {
        let mut j = i + 1;
        while j < t.len() && t[j] < h2::TAG {
            j += 1;
        }
        let n = &t[i + 1..j];
        let name = h2::TAGS[(t[i] - h2::TAG) as usize];
        let limits: &[u64] = match t[i] {
            h2::FRAME => &[1 << 24, 1 << 8, 1 << 8, 1 << 31],
            h2::GO_AWAY => &[1 << 31, 1 << 32],
            h2::HEADERS | h2::PRIORITY => &[2, 1 << 31, 1 << 8],
            h2::PUSH_PROMISE | h2::WINDOW_UPDATE => &[1 << 31],
            _ => &[],
        };
        for (x, l) in n.iter().zip(limits) {
            ensure!(x < l, "{} with {:#x}, which is not below {:#x}", name, x, l);
        }
        i = j;
    }
    Ok(())
}

fn c42(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(60) {
        let wire = h2p::any_stream(s, st);
        let cuts = s.cuts(wire.len());
        st.nontrivial(wire.len() > 9, &wire);
        st.sample(|| h2p::describe(&wire, &cuts));
        st.runs += 1;
        let pause = if s.chance(60) { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
        let out = h2::run_with(&mut h2::Rec::new(pause), &slices(&wire, &cuts), false);
        return clean_h2(&out.t).map_err(|m| format!("{}\n {}\n {}", m, out.show(), h2p::describe(&wire, &cuts)));
    }
    let (plan, mut wire) = if s.chance(60) { h1p::arbitrary(s, st) } else { h1p::any_element(s, st, true) };
    if s.chance(60) && !wire.is_empty() {
        // bytes that must not get through, where a fast path may look
        for _ in 0..s.range(1, 3) {
            let i = s.below(wire.len());
            let b = *s.pick(b"\0\r\n\x0B\x1F\x7F\x80\xFF\" \t:;=A");
            wire[i] = b;
        }
    }
    let cuts = if s.chance(80) { vec![] } else { s.cuts(wire.len()) };
    let pause = if s.chance(60) { h1p::pause_plan(s, 20) } else { h1::Pause::Never };
    let out = h1::run_with(&plan, &mut h1::Rec::new(&plan.parts, pause), &slices(&wire, &cuts), false);
    st.runs += 1;
    st.nontrivial(out.t.len() > 1, &wire);
    st.sample(|| h1p::describe(&plan, &wire, &cuts));
    st.class(match out.end {
        h1::End::Err(..) => "rejected",
        h1::End::Finished => "finished",
        _ => "unfinished",
    });
    clean_h1(&plan, &out.t, wire.len()).map_err(|m| format!("{}\n {}\n {}", m, out.show(), h1p::describe(&plan, &wire, &cuts)))
}

// ------------------------------------------------------------------------------ order of HTTP/2 callbacks

/// The callbacks of each frame are those of its type, in order.
fn order_h2(t: &[u64], complete: bool) -> Check {
    use h2::*;
    // tags, with the numbers of FRAME
    let mut v: Vec<(u64, &[u64])> = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut j = i + 1;
        while j < t.len() && t[j] < TAG {
            j += 1;
        }
        v.push((t[i], &t[i + 1..j]));
        i = j;
    }
    let name = |x: u64| TAGS[(x - TAG) as usize];
    ensure!(v.is_empty() || v[0].0 == FRAME, "{} before any frame", name(v[0].0));
    let mut at = 0;
    while at < v.len() {
        let f = v[at].1;
        let end = (at + 1..v.len()).find(|&k| v[k].0 == FRAME).unwrap_or(v.len());
        let got: Vec<u64> = v[at + 1..end].iter().map(|x| x.0).collect();
        let (len, ty, flags) = (f[0], f[1], f[2] as u8);
        let prio = ty == 1 && flags & (PADDED | PRIO) != 0;
        let want: &[u64] = match ty {
            0 => &[DATA, FIN],
            1 if prio => &[HEADERS, FRAGMENT, FIN],
            1 | 9 => &[FRAGMENT, FIN],
            2 => &[PRIORITY],
            3 => &[RST_STREAM],
            4 if len == 0 => &[],
            4 => &[SETTINGS],
            5 => &[PUSH_PROMISE, FRAGMENT, FIN],
            6 => &[PING, FIN],
            7 if len == 8 => &[GO_AWAY],
            7 => &[GO_AWAY, DEBUG_DATA, FIN],
            8 => &[WINDOW_UPDATE],
            _ => &[UNSUPPORTED, FIN],
        };
        let show = |x: &[u64]| x.iter().map(|&x| name(x)).collect::<Vec<_>>();
        // at least one setting, and as many as the length has room for (known finding K1)
        let many: Vec<u64>;
        let want = if ty == 4 && got.len() > 1 && got.len() as u64 <= len / 6 {
            many = vec![SETTINGS; got.len()];
            &many[..]
        } else {
            want
        };
        // the last frame may be unfinished
        ensure!(
            if end < v.len() || complete { got == want } else { want.starts_with(&got) },
            "frame of type {} with length {} and flags {:#04x}: {:?}, and not {:?}", ty, len, flags, show(&got), show(want)
        );
        let data: u64 = v[at + 1..end].iter().filter(|x| matches!(x.0, DATA | FRAGMENT | PING | DEBUG_DATA | UNSUPPORTED)).map(|x| x.1.len() as u64).sum();
        ensure!(data <= len, "{} bytes of data in a frame of length {}", data, len);
        at = end;
    }
    Ok(())
}

fn c43(s: &mut Src, st: &mut Stats) -> Check {
    let (wire, complete) = if s.chance(80) {
        let m = h2::stream(s, 8, false);
        (m.wire, true)
    } else {
        (h2p::any_stream(s, st), false)
    };
    st.class_if(complete, "well-formed");
    for i in 0..3 {
        let cuts = if i == 0 { vec![] } else { s.cuts(wire.len()) };
        let pause = if i == 2 { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
        let mut rec = h2::Rec::new(pause);
        let mut p: http2::Parser<h2::Rec> = http2::Parser::new();
        let out = h2::run_on(&mut p, &mut rec, &slices(&wire, &cuts), false).0;
        st.runs += 1;
        if i == 0 {
            st.nontrivial(out.callbacks > 2, &wire);
            st.sample(|| h2p::describe(&wire, &cuts));
            st.class_if(out.end == h2::End::Err, "rejected");
        }
        if let h2::End::Bad(ref m) = out.end {
            return Err(format!("{}\n {}", m, h2p::describe(&wire, &cuts)));
        }
        order_h2(&out.t, complete).map_err(|m| format!("{}\n {}\n {}", m, out.show(), h2p::describe(&wire, &cuts)))?;
        if out.end == h2::End::Err {
            let n = rec.callbacks;
            for t in [&wire[..], b""] {
                let _ = p.resume(&mut rec, t);
            }
            ensure!(rec.callbacks == n, "callbacks after an error\n {}", h2p::describe(&wire, &cuts));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- texts

fn words(t: &str) -> Vec<&str> {
    t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect()
}

/// The texts of one value: they name `kind`, none of the other kinds of its type, and the number.
fn names<T: fmt::Debug + fmt::Display>(v: &T, kind: &str, kinds: &[&str], number: Option<u64>, display: bool) -> Check {
    let mut texts = vec![format!("{:?}", v)];
    if display {
        texts.push(format!("{}", v));
    }
    for t in &texts {
        let w = words(t);
        let named: Vec<&&str> = kinds.iter().filter(|k| w.contains(*k)).collect();
        ensure!(named == [&kind], "{:?} names {:?} and not {}", t, named, kind);
        let n: Vec<u64> = w.iter().filter_map(|x| x.parse().ok()).collect();
        ensure!(n == number.into_iter().collect::<Vec<_>>(), "{:?} has the numbers {:?} and not {:?}", t, n, number);
    }
    Ok(())
}

const H1_ERRORS: [&str; 17] = [
    "ChunkExtensionName", "ChunkExtensionValue", "ChunkLength", "CrlfSequence", "HeaderName", "HeaderValue", "Method",
    "Multipart", "MultipartBoundary", "Status", "StatusCode", "Url", "UrlEncodedName", "UrlEncodedValue", "Version",
    "Dead", "ChunkLengthOverflow",
];

fn h1_error(i: usize, b: u8) -> http1::ParserError {
    use http_box::http1::ParserError::*;
    match i {
        0 => ChunkExtensionName(b),
        1 => ChunkExtensionValue(b),
        2 => ChunkLength(b),
        3 => CrlfSequence(b),
        4 => HeaderName(b),
        5 => HeaderValue(b),
        6 => Method(b),
        7 => Multipart(b),
        8 => MultipartBoundary(b),
        9 => Status(b),
        10 => StatusCode(b),
        11 => Url(b),
        12 => UrlEncodedName(b),
        13 => UrlEncodedValue(b),
        14 => Version(b),
        15 => Dead,
        _ => ChunkLengthOverflow,
    }
}

const CODES: [&str; 15] = [
    "NoError", "Protocol", "Internal", "FlowControl", "SettingsTimeout", "StreamClosed", "FrameSize", "RefusedStream",
    "Cancel", "Compression", "Connect", "EnhanceYourCalm", "InadequateSecurity", "Http11Required", "Unsupported",
];
const TYPES: [&str; 11] = [
    "Data", "Headers", "Priority", "RstStream", "Settings", "PushPromise", "Ping", "GoAway", "WindowUpdate", "Continuation",
    "Unsupported",
];
const SETTINGS: [&str; 7] = [
    "HeaderTableSize", "EnablePush", "MaxConcurrentStreams", "InitialWindowSize", "MaxFrameSize", "MaxHeaderListSize",
    "Unsupported",
];

fn settings(v: u32) -> [http2::Setting; 7] {
    use http_box::http2::Setting::*;
    [
        HeaderTableSize(v), EnablePush(v), MaxConcurrentStreams(v), InitialWindowSize(v), MaxFrameSize(v), MaxHeaderListSize(v),
        Unsupported(v),
    ]
}

/// The words of a text that follow a name.
fn after<'a>(w: &[&'a str], name: &str) -> Vec<&'a str> {
    w.windows(2).filter(|x| x[0] == name).map(|x| x[1]).collect()
}

fn flags_text(t: &str, b: u8) -> Check {
    let w = words(t);
    for (name, bit) in [("ack", 1), ("end_stream", 1), ("end_headers", 4), ("padded", 8), ("priority", 0x20)] {
        let v = after(&w, name);
        let want = if b & bit == bit { "true" } else { "false" };
        ensure!(v == [want], "flags {:#04x}: {:?} says {} is {:?}", b, t, name, v);
    }
    Ok(())
}

fn format_text(len: u32, ty: u8, fl: u8, id: u32) -> Check {
    // there is no way to make one but from one
    let mut f: http2::FrameFormat = unsafe { std::mem::zeroed() };
    f = f.new(len, ty, fl, id);
    for t in [format!("{}", f), format!("{:?}", f)] {
        let w = words(&t);
        flags_text(&t, fl)?;
        let kind = TYPES[(ty as usize).min(10)];
        ensure!(w.iter().filter(|x| **x == kind).count() == 1, "{:?} does not name {}", t, kind);
        ensure!(TYPES.iter().filter(|k| w.contains(*k)).count() == 1, "{:?} names another type than {}", t, kind);
        let n = (after(&w, "payload_length"), after(&w, "stream_id"));
        ensure!(
            n == (vec![&len.to_string()[..]], vec![&id.to_string()[..]]),
            "{:?} says {:?} for length {} and stream {}", t, n, len, id
        );
    }
    Ok(())
}

fn success_text(n: usize) -> Check {
    const K: [&str; 3] = ["Callback", "Eos", "Finished"];
    for (k, v) in K.iter().zip([Success::Callback(n), Success::Eos(n), Success::Finished(n)]) {
        names(&v, k, &K, Some(n as u64), false)?;
        let t = format!("{}", v);
        let w: Vec<u64> = words(&t).iter().filter_map(|x| x.parse().ok()).collect();
        ensure!(w == [n as u64], "{:?} displays as {:?}", v, t);
    }
    Ok(())
}

/// All errors with byte `i`, all typed values of number `i`, all flags.
fn c36_enum(i: u64, st: &mut Stats) -> Check {
    let b = i as u8;
    let n = Some(i);
    st.runs += 40;
    let mut seen: HashMap<String, usize> = HashMap::new();
    for k in 0..17 {
        let e = h1_error(k, b);
        names(&e, H1_ERRORS[k], &H1_ERRORS, if k < 15 { n } else { None }, true)?;
        ensure!(seen.insert(e.to_string(), k).is_none(), "two errors are shown as {}", e);
    }
    // a PRIORITY frame without its fields
    match http2::Parser::new().resume(&mut h2::Rec::new(h2::Pause::Never), &[0, 0, 1, 2, b, 0, 0, 0, 1, b, 0, 0, 0, 0, 0]) {
        Err(e) => names(&e, "Dead", &["Dead"], None, true)?,
        Ok(r) => return Err(format!("{:?} for a PRIORITY frame of one byte", r)),
    }
    names(&util::DecodeError::Byte(b), "Byte", &["Byte", "HexSequence"], n, true)?;
    names(&util::DecodeError::HexSequence(b), "HexSequence", &["Byte", "HexSequence"], n, true)?;
    names(&util::QueryError::Name(b), "Name", &["Name", "Value"], n, true)?;
    names(&util::QueryError::Value(b), "Value", &["Name", "Value"], n, true)?;
    names(&util::FieldError::Name(b), "Name", &["Name", "Value"], n, true)?;
    names(&util::FieldError::Value(b), "Value", &["Name", "Value"], n, true)?;
    names(&http2::ErrorCode::from_u8(b), CODES[(i as usize).min(14)], &CODES, None, true)?;
    names(&http2::FrameType::from_u8(b), TYPES[(i as usize).min(10)], &TYPES, None, true)?;
    for v in [i as u32, u32::MAX - i as u32, 1u32 << (i % 32), 0x0102_0304] {
        for (k, x) in settings(v).iter().enumerate() {
            names(x, SETTINGS[k], &SETTINGS, Some(v as u64), true)?;
        }
    }
    let f = http2::Flags::from_u8(b);
    flags_text(&f.to_string(), b)?;
    flags_text(&format!("{:?}", f), b)?;
    for ty in 0..=255u32 {
        format_text(ty * 257, ty as u8, b, i as u32 * 0x0101_0101)?;
    }
    for n in [i as usize, usize::MAX - i as usize, 1usize << (i % 64)] {
        success_text(n)?;
    }
    Ok(())
}

fn c36(s: &mut Src, st: &mut Stats) -> Check {
    let len = s.u32() & 0xFF_FFFF;
    let (ty, fl, id) = (s.byte(), s.byte(), s.u32() & 0x7FFF_FFFF);
    st.nontrivial(true, &[&len.to_le_bytes()[..], &id.to_le_bytes(), &[ty, fl]].concat());
    st.sample(|| format!("frame format {} {} {} {}", len, ty, fl, id));
    st.runs += 1;
    format_text(len, ty, fl, id)?;
    for (k, x) in settings(id).iter().enumerate() {
        names(x, SETTINGS[k], &SETTINGS, Some(id as u64), true)?;
    }
    // a real error says the byte it is about
    let mut w = b"GET /".to_vec();
    let bad = *s.pick(&[0u8, 0x0B, 0x7F, 0x80, 0xFF]);
    w.push(bad);
    let mut p: http1::Parser<h1::Noop> = http1::Parser::new();
    match p.resume(&mut h1::Noop, &w) {
        Err(e) => {
            ensure!(words(&e.to_string()).contains(&&bad.to_string()[..]), "{:?} for {}", e, show(&w));
        }
        Ok(r) => return Err(format!("{:?} for {}", r, show(&w))),
    }
    success_text((id as usize) << (fl % 33))
}

// ----------------------------------------------------------------------------------- reused buffers

/// A buffer that is used for every slice and overwritten after each call.
struct Reused {
    buf: Vec<u8>,
    junk: u8,
    n: usize,
    /// slices with the same beginning
    stay: usize,
}

impl Reused {
    fn new(longest: usize, junk: u8, stay: usize) -> Reused {
        Reused { buf: vec![junk; longest + 48], junk, n: 0, stay }
    }
    fn put(&mut self, sl: &[u8]) -> &[u8] {
        self.n += 1;
        let at = 16 + self.n / self.stay % 16;
        self.buf[at..at + sl.len()].copy_from_slice(sl);
        &self.buf[at..at + sl.len()]
    }
    fn wipe(&mut self) {
        let j = self.junk;
        self.buf.iter_mut().for_each(|b| *b = j);
    }
}

/// Takes what is in one place to the next one.
fn onward<X>(places: &mut [Option<X>; 3], at: &mut usize) {
    let x = places[*at].take();
    *at = (*at + 1) % 3;
    places[*at] = x;
}

fn c44_http1(s: &mut Src, st: &mut Stats, junk: u8, stay: usize) -> Check {
    let broken = s.chance(60);
    let (plan, wire) = h1p::any_element(s, st, broken);
    let cuts = s.cuts(wire.len());
    let pause = if s.chance(128) { h1p::pause_plan(s, 20) } else { h1::Pause::Never };
    let sl = slices(&wire, &cuts);
    st.nontrivial(sl.len() > 1, &wire);
    st.sample(|| h1p::describe(&plan, &wire, &cuts));
    let go = |moving: bool| {
        let mut log = vec![];
        let mut p: http1::Parser<h1::Rec> = http1::Parser::new();
        plan.init(&mut p);
        let mut rec = h1::Rec::new(&plan.parts, pause.clone());
        rec.cap = h1::cap_for(wire.len(), sl.len()) * 2;
        let (mut ps, mut rs) = ([Some(p), None, None], [Some(rec), None, None]);
        let (mut pi, mut ri) = (0, 0);
        let mut buf = Reused::new(wire.len(), junk, stay);
        'all: for one in &sl {
            let mut rest: &[u8] = one;
            loop {
                if moving {
                    onward(&mut ps, &mut pi);
                    onward(&mut rs, &mut ri);
                }
                let (p, rec) = (ps[pi].as_mut().unwrap(), rs[ri].as_mut().unwrap());
                let r = p.resume(rec, if moving { buf.put(rest) } else { rest });
                rec.paused = false;
                buf.wipe();
                log.push((format!("{:?}", r), rec.t.t.len(), p.state(), p.byte_count()));
                match r {
                    Ok(Success::Eos(_)) => break,
                    Ok(Success::Callback(n)) if n <= rest.len() => {
                        rest = &rest[n..];
                        if rest.is_empty() {
                            break;
                        }
                    }
                    _ => break 'all,
                }
            }
        }
        (log, rs[ri].as_mut().unwrap().t.t.clone())
    };
    let (a, b) = (go(false), go(true));
    st.runs += 2;
    let same = a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2 == y.2 && x.3 == y.3);
    let results = |l: &Vec<(String, usize, http1::ParserState, usize)>| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    ensure!(
        same,
        "in one buffer that is overwritten with {:#x} after each call, with a parser and a handler that move: {} {}\n in place: {} {}\n {}",
        junk, results(&b.0), h1::show_t(&b.1), results(&a.0), h1::show_t(&a.1), h1p::describe(&plan, &wire, &cuts)
    );
    Ok(())
}

fn c44_http2(s: &mut Src, st: &mut Stats, junk: u8, stay: usize) -> Check {
    let wire = if s.chance(200) { h2::stream(s, 4, false).wire } else { h2p::any_stream(s, st) };
    let cuts = s.cuts(wire.len());
    let pause = if s.chance(128) { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
    let sl = slices(&wire, &cuts);
    st.class("http2");
    st.nontrivial(sl.len() > 1, &wire);
    st.sample(|| h2p::describe(&wire, &cuts));
    let go = |moving: bool| {
        let mut log = vec![];
        let mut rec = h2::Rec::new(pause.clone());
        rec.cap = 512 + 16 * (wire.len() + sl.len());
        let p: http2::Parser<h2::Rec> = http2::Parser::new();
        let (mut ps, mut rs) = ([Some(p), None, None], [Some(rec), None, None]);
        let (mut pi, mut ri) = (0, 0);
        let mut buf = Reused::new(wire.len(), junk, stay);
        'all: for one in &sl {
            let mut rest: &[u8] = one;
            loop {
                if moving {
                    onward(&mut ps, &mut pi);
                    onward(&mut rs, &mut ri);
                }
                let (p, rec) = (ps[pi].as_mut().unwrap(), rs[ri].as_mut().unwrap());
                let r = p.resume(rec, if moving { buf.put(rest) } else { rest });
                rec.paused = false;
                buf.wipe();
                log.push((format!("{:?}", r), rec.t.t.len(), p.state(), p.byte_count()));
                match r {
                    Ok(Success::Eos(_)) => break,
                    Ok(Success::Callback(n)) if n <= rest.len() => {
                        rest = &rest[n..];
                        if rest.is_empty() {
                            break;
                        }
                    }
                    _ => break 'all,
                }
            }
        }
        (log, rs[ri].as_mut().unwrap().t.t.clone())
    };
    let (a, b) = (go(false), go(true));
    st.runs += 2;
    let same = a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2 == y.2 && x.3 == y.3);
    ensure!(
        same,
        "in one buffer that is overwritten with {:#x} after each call, with a parser and a handler that move: {}\n in place: {}\n {}",
        junk, h2::show_t(&b.1), h2::show_t(&a.1), h2p::describe(&wire, &cuts)
    );
    Ok(())
}

fn c44(s: &mut Src, st: &mut Stats) -> Check {
    let junk = match s.below(4) {
        0 => *s.pick(b"\r\n-:=&%\"\\;"),
        1 => *s.pick(b"Aa0 \0\xFF"),
        _ => s.byte(),
    };
    // always one place, as most callers do, one for two slices, or another one each time
    let stay = *s.pick(&[1_000_000, 1, 2]);
    if s.chance(90) {
        c44_http2(s, st, junk, stay)
    } else {
        c44_http1(s, st, junk, stay)
    }
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, enumerated, e, quick, thorough, rule| v.push(Prop { id, f, enumerated, e, long: 0, l: no_enum, quick, thorough, rule });
    add("C18", c18, 0, no_enum as fn(u64, &mut Stats) -> Check, 200_000, 12_000_000, "Two to four HTTP/1 and HTTP/2 parsers with their own input, partition and pauses are called in random interleavings, again afterwards, and now and then on threads; results, states, counts and transcripts must equal those of each parser alone. Non-trivial: at least two inputs are not empty.");
    add("C19", c19, 0, no_enum, 2_000_000, 120_000_000, "A valid, mutated or arbitrary input in random partitions with and without pauses; the state after each slice must be the one after the same bytes fed one by one. Non-trivial: more than one byte.");
    add("C41", c41, 0, no_enum, 2_000_000, 120_000_000, "A well-formed HTTP/2 stream, or a valid, mutated or arbitrary HTTP/1 input, byte by byte and in a random partition; after each slice the reported state must be one that names the byte the reference automaton, or the layout of the frame, awaits. Non-trivial: more than one byte.");
    add("C42", c42, 0, no_enum, 3_000_000, 180_000_000, "Valid, mutated or arbitrary input of either parser, in any partition, with and without pauses, with forbidden bytes put in now and then; the bytes, numbers and lengths given to the callbacks must be ones that the element can have. Non-trivial: at least one callback (HTTP/2: more than a frame header).");
    add("C43", c43, 0, no_enum, 2_000_000, 120_000_000, "A well-formed, mutated or arbitrary HTTP/2 stream, whole, in a random partition, and with pauses; the callbacks of each frame must be those of its type, in order, with one end of data. Non-trivial: more than two callbacks.");
    add("C44", c44, 0, no_enum, 600_000, 36_000_000, "A valid or mutated element or stream in a random partition, with and without pauses, from one buffer that is overwritten after each call, at the same or varying places in it, while parser and handler move to another place before each call; results, states, counts and transcripts must equal those of a run in place. Non-trivial: at least two slices.");
    add("C36", c36, 256, c36_enum, 2_500_000, 150_000_000, "Enumerated completely: the texts of all errors with all 256 bytes, all error codes, frame types, settings, flags, and frame formats of all types and flags. Random frame formats, settings and counts on top. Every case is non-trivial.");
}
