//! Parsers that are called from the callbacks of other parsers.

use super::{h1p, h2p, no_enum, Prop};
use crate::ensure;
use crate::h1::{self, Plan};
use crate::h2;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Src};
use http_box::fsm::Success;
use http_box::{http1, http2, util};

/// One outcome: what was returned, the length of the transcript, the state and the byte count.
type Log = Vec<(String, usize, String, usize)>;

/// What the handlers do with the data of the payload.
#[derive(Default)]
struct Sink<'a> {
    next: Option<Box<Stage<'a>>>,
    tap: Option<Vec<Vec<u8>>>,
    /// results of the utilities, called from the callback
    used: Option<Vec<(Vec<u8>, String)>>,
}

fn utilities(d: &[u8]) -> String {
    let mut errors = vec![];
    let q: Vec<_> = util::QueryIterator::new(d).on_error(|e| errors.push(format!("{:?}", e))).collect();
    let mut more = vec![];
    let f: Vec<_> = util::FieldIterator::new(d, b';', true).on_error(|e| more.push(format!("{:?}", e))).collect();
    format!("{:?} {:?} {:?} {:?} {:?}", util::decode(d), q, errors, f, more)
}

impl<'a> Sink<'a> {
    fn take(&mut self, d: &[u8]) {
        if let Some(ref mut u) = self.used {
            if d.len() < 100 {
                u.push((d.to_vec(), utilities(d)));
            }
        }
        if let Some(ref mut t) = self.tap {
            t.push(d.to_vec());
        }
        if let Some(ref mut n) = self.next {
            n.give(d);
        }
    }
}

struct One<'a>(h1::Rec, Sink<'a>);

macro_rules! to {
    ($($m:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(fn $m(&mut self, $($a: $t),*) -> $r { self.0.$m($($a),*) })* };
}
macro_rules! sunk {
    ($($m:ident;)*) => { $(fn $m(&mut self, d: &[u8]) -> bool { self.1.take(d); self.0.$m(d) })* };
}

impl<'a> http1::HttpHandler for One<'a> {
    to! {
        content_length() -> Option<usize>;
        on_body_finished() -> bool;
        on_chunk_begin() -> bool;
        on_chunk_extension_finished() -> bool;
        on_chunk_extension_name(d: &[u8]) -> bool;
        on_chunk_extension_value(d: &[u8]) -> bool;
        on_chunk_extensions_finished() -> bool;
        on_chunk_length(n: usize) -> bool;
        on_header_name(d: &[u8]) -> bool;
        on_header_value(d: &[u8]) -> bool;
        on_headers_finished() -> bool;
        on_initial_finished() -> bool;
        on_method(d: &[u8]) -> bool;
        on_multipart_begin() -> bool;
        on_status(d: &[u8]) -> bool;
        on_status_code(n: u16) -> bool;
        on_url(d: &[u8]) -> bool;
        on_url_encoded_begin() -> bool;
        on_url_encoded_name(d: &[u8]) -> bool;
        on_version(a: u16, b: u16) -> bool;
    }
    sunk! { on_chunk_data; on_multipart_data; on_url_encoded_value; }
}

struct Two<'a>(h2::Rec, Sink<'a>);

impl<'a> http2::HttpHandler for Two<'a> {
    to! {
        on_frame_format(n: u32, t: u8, f: u8, s: u32) -> bool;
        on_go_away(s: u32, c: u32) -> bool;
        on_go_away_debug_data(d: &[u8], f: bool) -> bool;
        on_headers(e: bool, s: u32, w: u8) -> bool;
        on_headers_fragment(d: &[u8], f: bool) -> bool;
        on_ping(d: &[u8], f: bool) -> bool;
        on_priority(e: bool, s: u32, w: u8) -> bool;
        on_push_promise(s: u32) -> bool;
        on_rst_stream(c: u32) -> bool;
        on_settings(i: u16, v: u32) -> bool;
        on_unsupported(d: &[u8], f: bool) -> bool;
        on_window_update(n: u32) -> bool;
    }
    fn on_data(&mut self, d: &[u8], f: bool) -> bool {
        self.1.take(d);
        self.0.on_data(d, f)
    }
}

enum Stage<'a> {
    Http1(http1::Parser<'a, One<'a>>, One<'a>, Log),
    Http2(http2::Parser<'a, Two<'a>>, Two<'a>, Log),
}

impl<'a> Stage<'a> {
    fn new(level: &'a Level, sink: Sink<'a>) -> Stage<'a> {
        let cap = 4096 + 16 * level.wire.len();
        match level.plan {
            Some(ref plan) => {
                let mut p = http1::Parser::new();
                plan.init(&mut p);
                let mut r = h1::Rec::new(&plan.parts, level.pause1.clone());
                r.cap = cap;
                Stage::Http1(p, One(r, sink), vec![])
            }
            None => {
                let mut r = h2::Rec::new(level.pause2.clone());
                r.cap = cap;
                Stage::Http2(http2::Parser::new(), Two(r, sink), vec![])
            }
        }
    }

    fn give(&mut self, d: &[u8]) {
        let mut d = d;
        loop {
            let rest = match *self {
                Stage::Http1(ref mut p, ref mut h, ref mut log) => {
                    let r = p.resume(h, d);
                    h.0.paused = false;
                    log.push((format!("{:?}", r), h.0.t.t.len(), format!("{:?}", p.state()), p.byte_count()));
                    match r {
                        Ok(Success::Callback(n)) => Some(n),
                        _ => None,
                    }
                }
                Stage::Http2(ref mut p, ref mut h, ref mut log) => {
                    let r = p.resume(h, d);
                    h.0.paused = false;
                    log.push((format!("{:?}", r), h.0.t.t.len(), format!("{:?}", p.state()), p.byte_count()));
                    match r {
                        Ok(Success::Callback(n)) => Some(n),
                        _ => None,
                    }
                }
            };
            match rest {
                Some(n) if n < d.len() => d = &d[n..],
                _ => return,
            }
        }
    }

    fn sink(&mut self) -> &mut Sink<'a> {
        match *self {
            Stage::Http1(_, ref mut h, _) => &mut h.1,
            Stage::Http2(_, ref mut h, _) => &mut h.1,
        }
    }

    fn log(&self) -> &Log {
        match *self {
            Stage::Http1(_, _, ref l) => l,
            Stage::Http2(_, _, ref l) => l,
        }
    }

    fn text(&self) -> String {
        match *self {
            Stage::Http1(_, ref h, _) => h1::show_t(&h.0.t.t),
            Stage::Http2(_, ref h, _) => h2::show_t(&h.0.t.t),
        }
    }

    fn same(&self, o: &Stage) -> bool {
        self.log() == o.log()
            && match (self, o) {
                (&Stage::Http1(_, ref a, _), &Stage::Http1(_, ref b, _)) => a.0.t.t == b.0.t.t,
                (&Stage::Http2(_, ref a, _), &Stage::Http2(_, ref b, _)) => a.0.t.t == b.0.t.t,
                _ => false,
            }
    }
}

struct Level {
    /// None is HTTP/2
    plan: Option<Plan>,
    wire: Vec<u8>,
    pause1: h1::Pause,
    pause2: h2::Pause,
    kind: &'static str,
}

fn pieces(s: &mut Src, n: usize) -> Vec<(usize, usize)> {
    let mut c = if s.chance(70) { vec![] } else { s.cuts(n) };
    c.push(n);
    let mut at = 0;
    let mut v = vec![];
    for x in c {
        if x > at {
            v.push((at, x));
            at = x;
        }
    }
    v
}

/// The payload in something that carries it.
fn wrap(s: &mut Src, d: &[u8]) -> Level {
    let (plan, wire, kind) = match s.below(4) {
        0 => {
            let mut w = vec![];
            for (a, b) in pieces(s, d.len()) {
                w.extend_from_slice(format!("{:x}", b - a).as_bytes());
                if s.chance(40) {
                    w.extend_from_slice(b";a=b");
                }
                w.extend_from_slice(b"\r\n");
                w.extend_from_slice(&d[a..b]);
                w.extend_from_slice(b"\r\n");
            }
            w.extend_from_slice(b"0\r\n\r\n");
            (Some(Plan::chunked()), w, "in chunks")
        }
        1 => {
            let mut b = b"nest".to_vec();
            // one that looks like those inside
            let at: Vec<usize> = (0..d.len().saturating_sub(4)).filter(|&i| d[i..].starts_with(b"\r\n--")).collect();
            if !at.is_empty() && s.chance(200) {
                let t = &d[*s.pick(&at) + 4..];
                let n = t.iter().take_while(|x| x.is_ascii_alphanumeric()).count();
                b = t[..s.below(n + 1).min(60)].to_vec();
                b.push(b'a' + s.below(26) as u8);
            }
            while d.windows(b.len()).any(|x| x == &b[..]) {
                b.push(b'a' + s.below(26) as u8);
            }
            let mut w = b"--".to_vec();
            w.extend_from_slice(&b);
            w.extend_from_slice(b"\r\nA: b\r\n\r\n");
            w.extend_from_slice(d);
            w.extend_from_slice(b"\r\n--");
            w.extend_from_slice(&b);
            w.extend_from_slice(b"--");
            let known = if s.chance(128) { Some(d.len()) } else { None };
            (Some(Plan::multipart(&b, &[known])), w, "in a part")
        }
        2 => {
            let mut w = b"n=".to_vec();
            let all = s.chance(60);
            for &x in d {
                if x.is_ascii_alphanumeric() && !all {
                    w.push(x);
                } else if x == b' ' && !all {
                    w.push(b'+');
                } else {
                    w.extend_from_slice(format!("%{:02X}", x).as_bytes());
                }
            }
            (Some(Plan::url(w.len())), w, "in a value")
        }
        _ => {
            let mut w = vec![];
            for (mut a, b) in pieces(s, d.len()) {
                while a < b {
                    let n = (b - a).min(1 << 20);
                    let pad = if s.chance(60) { Some(s.below(20)) } else { None };
                    let len = n + pad.map_or(0, |p| p + 1);
                    w.extend_from_slice(&[(len >> 16) as u8, (len >> 8) as u8, len as u8, 0, if pad.is_some() { 8 } else { 0 }, 0, 0, 0, 1]);
                    if let Some(p) = pad {
                        w.push(p as u8);
                    }
                    w.extend_from_slice(&d[a..a + n]);
                    w.extend(std::iter::repeat(0).take(pad.unwrap_or(0)));
                    a += n;
                    if s.chance(40) {
                        w.extend_from_slice(&[0, 0, 4, 8, 0, 0, 0, 0, 1, 0, 0, 0, 9]);
                    }
                }
            }
            (None, w, "in frames")
        }
    };
    level(s, plan, wire, kind)
}

fn level(s: &mut Src, plan: Option<Plan>, wire: Vec<u8>, kind: &'static str) -> Level {
    let p = s.chance(50);
    Level {
        plan,
        wire,
        pause1: if p { h1p::pause_plan(s, 20) } else { h1::Pause::Never },
        pause2: if p { h2p::pause_plan(s, 20) } else { h2::Pause::Never },
        kind,
    }
}

fn c46(s: &mut Src, st: &mut Stats) -> Check {
    let broken = s.chance(60);
    let mut levels = vec![];
    if s.chance(60) {
        let wire = if broken { h2p::any_stream(s, st) } else { h2::stream(s, 3, false).wire };
        levels.push(level(s, None, wire, "frames"));
    } else {
        let (plan, wire) = h1p::any_element(s, st, broken);
        levels.push(level(s, Some(plan), wire, "element"));
    }
    if levels[0].wire.len() > 1500 {
        // it grows in each level
        levels[0].wire.truncate(1500);
    }
    for _ in 0..s.range(1, 3) {
        let l = wrap(s, &levels[levels.len() - 1].wire);
        st.class(l.kind);
        levels.push(l);
    }
    let top = levels.len() - 1;
    if broken && s.chance(60) {
        h1p::mutated(s, st, &mut levels[top].wire);
    }
    let cuts = s.cuts(levels[top].wire.len());
    let use_utilities = s.chance(50);
    let sl = slices(&levels[top].wire, &cuts);
    let all = || {
        levels.iter().rev().map(|l| match l.plan {
            Some(ref p) => format!("{}: {} {}", l.kind, p.show(), show(&l.wire[..l.wire.len().min(600)])),
            None => format!("{}: {}", l.kind, show(&l.wire[..l.wire.len().min(600)])),
        }).collect::<Vec<_>>().join("\n ")
    };
    st.nontrivial(levels[0].wire.len() > 1, &levels[top].wire);
    st.sample(|| format!("{:?} cuts in {}", cuts.len(), all()));

    // one after the other: the payload of one is the input of the next
    let mut alone = vec![];
    let mut given: Vec<Vec<u8>> = sl.iter().map(|x| x.to_vec()).collect();
    for l in levels.iter().rev() {
        let mut stage = Stage::new(l, Sink { next: None, tap: Some(vec![]), used: None });
        for d in &given {
            stage.give(d);
        }
        given = stage.sink().tap.take().unwrap();
        alone.push(stage);
    }

    let paused = alone.iter().any(|a| match *a {
        Stage::Http1(_, ref h, _) => h.0.pauses > 0,
        Stage::Http2(_, ref h, _) => h.0.pauses > 0,
    });

    // one inside of the other
    let mut nest: Option<Box<Stage>> = None;
    for l in &levels {
        let used = if use_utilities { Some(vec![]) } else { None };
        nest = Some(Box::new(Stage::new(l, Sink { next: nest, tap: None, used })));
    }
    let mut nest = nest.unwrap();
    for d in &sl {
        nest.give(d);
    }
    st.runs += 2 * levels.len() as u64;
    let results = |l: &Log| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    for (i, a) in alone.iter().enumerate() {
        ensure!(
            a.same(&nest),
            "parser {} of {} behaves differently when it is called in a callback, or calls another one there: {} {}\n after one another: {} {}\n {}",
            i + 1, alone.len(), results(nest.log()), nest.text(), results(a.log()), a.text(), all()
        );
        for (d, got) in nest.sink().used.take().unwrap_or(vec![]) {
            ensure!(utilities(&d) == got, "the utilities yield something else in a callback for {}: {}", show(&d), got);
        }
        if i + 1 < alone.len() {
            nest = nest.sink().next.take().unwrap();
        }
    }

    // what was wrapped comes out again
    if !broken && !paused && !levels[0].wire.is_empty() {
        let l = &levels[0];
        match (l.plan.as_ref(), &*nest) {
            (Some(plan), &Stage::Http1(_, ref h, _)) => {
                let whole = h1::run(plan, &[&l.wire]);
                if whole.end == h1::End::Finished {
                    st.class("unwrapped");
                    ensure!(whole.t == h.0.t.t, "{} is wrapped, and {} comes out\n {}", h1::show_t(&whole.t), nest.text(), all());
                }
            }
            (None, &Stage::Http2(_, ref h, _)) => {
                let whole = h2::run(&[&l.wire]);
                if whole.end == h2::End::More {
                    st.class("unwrapped");
                    ensure!(whole.t == h.0.t.t, "{} is wrapped, and {} comes out\n {}", h2::show_t(&whole.t), nest.text(), all());
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, quick, thorough, rule| v.push(Prop { id, f, enumerated: 0, e: no_enum, long: 0, l: no_enum, quick, thorough, rule });
    add("C46", c46, 200_000, 12_000_000, "An element or stream, valid or mutated, is wrapped one to three times as chunks, as a multipart part, as an URL-encoded value or as HTTP/2 DATA frames, and the outermost is fed in a random partition, each parser being called from the data callback of the one around it, with and without pauses, now and then with the utilities called there too; each must behave exactly as when it gets the same pieces after the outer one is done, and what was wrapped must come out. Non-trivial: the innermost has more than one byte.");
}
