//! Properties about what parsing costs: memory, waiting, and time.

use super::{h1p, h2p, no_enum, Prop};
use crate::ensure;
use crate::h1::{self, Mode, Plan};
use crate::h1gen;
use crate::h1model::Model;
use crate::h2;
use crate::mem;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Src};
use http_box::fsm::Success;
use http_box::{http1, http2, util};

// --------------------------------------------------------------------------------------- workloads

/// An input that can be made of any size.
pub struct Load {
    plan: Option<Plan>,
    util: Option<Util>,
    kind: &'static str,
    start: Vec<u8>,
    units: Vec<Vec<u8>>,
    end: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Util {
    Decode,
    Query,
    Field,
}

pub const KINDS: usize = 34;

/// Bytes of one class, some of them.
fn filler(s: &mut Src, class: &[u8]) -> Vec<Vec<u8>> {
    let n = s.range(1, 3);
    (0..n)
        .map(|_| {
            let l = 1 + s.len(40);
            (0..l).map(|_| *s.pick(class)).collect()
        })
        .collect()
}

fn units(s: &mut Src, f: &mut dyn FnMut(&mut Src, &mut h1gen::Msg)) -> Vec<Vec<u8>> {
    let n = s.range(1, 4);
    (0..n)
        .map(|_| {
            let mut m = h1gen::Msg::default();
            f(s, &mut m);
            if m.wire.len() > 5000 {
                m = h1gen::Msg::default();
                m.wire.extend_from_slice(b"");
            }
            m.wire
        })
        .collect()
}

/// Lines of short length only.
fn short_header(s: &mut Src, m: &mut h1gen::Msg) {
    for _ in 0..20 {
        let mut t = h1gen::Msg::default();
        h1gen::header(s, &mut t);
        if t.wire.len() < 300 {
            m.wire.extend_from_slice(&t.wire);
            return;
        }
    }
    m.wire.extend_from_slice(b"a: b\r\n");
}

/// One workload; in half of the cases made of some of its units only.
pub fn load(s: &mut Src, k: usize, n: usize) -> Load {
    let mut l = load_all(s, k, n);
    let mask = s.byte();
    if s.chance(128) {
        let mut i = 0;
        l.units.retain(|_| {
            i += 1;
            mask >> (i - 1 & 7) & 1 == 1
        });
        if l.units.is_empty() {
            l = load_all(s, k, n);
            l.units.truncate(1);
        }
    }
    l
}

fn load_all(s: &mut Src, k: usize, n: usize) -> Load {
    let req = b"GET / HTTP/1.1\r\n".to_vec();
    let lower = b"abcdefghijklmnopqrstuvwxyz-0123456789";
    let text = b"abcdefghijklmnopqrstuvwxyz ABC;,=()<>/?1234567890\t";
    let head = |kind, start: Vec<u8>, units: Vec<Vec<u8>>, end: &[u8]| Load { plan: Some(Plan::head(false)), util: None, kind, start, units, end: end.to_vec() };
    let body = |kind, plan, start: &[u8], units: Vec<Vec<u8>>, end: &[u8]| Load { plan: Some(plan), util: None, kind, start: start.to_vec(), units, end: end.to_vec() };
    match k {
        0 => head("many headers", req, units(s, &mut short_header), b"\r\n"),
        1 => head("long header value", [&req[..], b"x: y"].concat(), filler(s, text), b"\r\n\r\n"),
        2 => head("long header name", req, filler(s, lower), b": v\r\n\r\n"),
        3 => head("long url", b"GET /".to_vec(), filler(s, b"abc/?&=%41.~"), b" HTTP/1.1\r\n\r\n"),
        4 => head("long method", vec![], filler(s, b"ABCHTP"), b" / HTTP/1.1\r\n\r\n"),
        5 => head("long reason", b"HTTP/1.1 200 O".to_vec(), filler(s, b"abc OK"), b"\r\n\r\n"),
        6 => head("blank lines", vec![], vec![b"\r\n".to_vec()], b"GET / HTTP/1.1\r\n\r\n"),
        7 => head("folded header value", [&req[..], b"x: y"].concat(), vec![b"\r\n z".to_vec(), b"\r\n\tw w".to_vec()], b"\r\n\r\n"),
        8 => head("quoted header value", [&req[..], b"x: \""].concat(), vec![b"a".to_vec(), b"\\\\".to_vec(), b"\\\"b, c".to_vec()], b"\"\r\n\r\n"),
        9 => {
            let mut u = vec![];
            for _ in 0..s.range(1, 4) {
                let max = *s.pick(&[20usize, 300, 3000]);
                let l = s.range(1, max);
                let mut m = h1gen::Msg::default();
                m.wire.extend_from_slice(format!("{:x}", l).as_bytes());
                if s.chance(100) {
                    h1gen::extension(s, &mut m);
                    m.wire.truncate(m.wire.len());
                }
                m.wire.extend_from_slice(b"\r\n");
                m.wire.extend(s.bulk(l));
                m.wire.extend_from_slice(b"\r\n");
                u.push(m.wire);
            }
            body("many chunks", Plan::chunked(), b"", u, b"0\r\n\r\n")
        }
        10 => body("long chunk", Plan::chunked(), format!("{:x}\r\n", n).as_bytes(), vec![s.bulk(1000)], b"\r\n0\r\n\r\n"),
        11 => body("long extension name", Plan::chunked(), b"5;", filler(s, lower), b"=a\r\nabcde\r\n0\r\n\r\n"),
        12 => body("long extension value", Plan::chunked(), b"5;a=", filler(s, lower), b"\r\nabcde\r\n0\r\n\r\n"),
        13 => body("long quoted extension value", Plan::chunked(), b"5;a=\"", vec![b"a".to_vec(), b"\\\\".to_vec(), b"\\\"b, c".to_vec()], b"\"\r\nabcde\r\n0\r\n\r\n"),
        14 => body("many extensions", Plan::chunked(), b"5", vec![b";a".to_vec(), b";a=b".to_vec(), b";c=\"d\"".to_vec()], b"\r\nabcde\r\n0\r\n\r\n"),
        15 => body("many trailers", Plan::chunked(), b"0\r\n", units(s, &mut short_header), b"\r\n"),
        16 => {
            let mut u = vec![];
            for _ in 0..s.range(1, 4) {
                let mut m = h1gen::Msg::default();
                for _ in 0..s.below(3) {
                    short_header(s, &mut m);
                }
                m.wire.extend_from_slice(b"\r\n");
                let l = *s.pick(&[0usize, 1, 30, 1000]);
                m.wire.extend((0..l).map(|i| b'a' + (i % 26) as u8));
                m.wire.extend_from_slice(b"\r\n--Bound\r\n");
                u.push(m.wire);
            }
            body("many parts", Plan::multipart(b"Bound", &[]), b"--Bound\r\n", u, b"\r\nend\r\n--Bound--")
        }
        17 => {
            // a long boundary that is nearly found again and again
            let b: Vec<u8> = match s.below(3) {
                0 => vec![b'-'; 70],
                1 => vec![b'a'; 40],
                _ => b"ababababababababc".to_vec(),
            };
            let mut delim = b"\r\n--".to_vec();
            delim.extend_from_slice(&b);
            let n = s.range(1, 3);
            let u = (0..n)
                .map(|_| {
                    let mut v = delim[..s.range(1, delim.len() - 1)].to_vec();
                    v.extend_from_slice(*s.pick(&[&b"x"[..], b"\r", b"\r\r", b"\n"]));
                    v
                })
                .collect();
            let start = [&b"--"[..], &b, b"\r\n\r\n"].concat();
            let end = [&b"!"[..], &delim, b"--"].concat();
            body("data like a delimiter", Plan::multipart(&b, &[]), &start, u, &end)
        }
        18 => body("part of known length", Plan::multipart(b"Bound", &[Some(n)]), b"--Bound\r\n\r\n", vec![s.bulk(1000)], b"\r\n--Bound--"),
        19 => {
            let u = vec![b"a=b&".to_vec(), b"name%41=v%20w+x&".to_vec(), b"n;".to_vec(), [&s.bytes(3).iter().map(|b| format!("%{:02X}", b)).collect::<String>().into_bytes()[..], b"=x&"].concat()];
            body("many pairs", Plan::url(n + 3), b"", u, b"z=1")
        }
        20 => body("long pair", Plan::url(n + 4), b"a=", vec![b"abc".to_vec(), b"%e4".to_vec(), b"+".to_vec()], b"zz"),
        21 => {
            let u = (0..s.range(1, 4))
                .map(|_| {
                    let mut m = h2::Stream::default();
                    loop {
                        h2::frame(s, &mut m, false);
                        if m.wire.len() < 3000 {
                            return m.wire;
                        }
                        m = h2::Stream::default();
                    }
                })
                .collect();
            Load { plan: None, util: None, kind: "many frames", start: vec![], units: u, end: vec![] }
        }
        22 => {
            let l = 0xFF_FFFF;
            let ty = *s.pick(&[0u8, 1, 5, 7, 9, 99]);
            let fields: &[u8] = match ty {
                5 => &[0, 0, 0, 9],
                7 => &[0, 0, 0, 9, 0, 0, 0, 1],
                _ => &[],
            };
            let mut w = h2::head(l, ty, 0, 1);
            w.extend_from_slice(fields);
            Load { plan: None, util: None, kind: "long frame", start: w, units: vec![s.bulk(1000)], end: vec![] }
        }
        23 => Load { plan: None, util: Some(Util::Decode), kind: "decode", start: vec![], units: filler(s, b"abc+").into_iter().chain(vec![b"%41".to_vec(), b"%c3%a4".to_vec()]).collect(), end: vec![] },
        24 => Load { plan: None, util: Some(Util::Query), kind: "query fields", start: vec![], units: vec![b"a=b&".to_vec(), b"%41b=c+d&".to_vec(), b"x;".to_vec(), b"&".to_vec()], end: b"z".to_vec() },
        25 => Load { plan: None, util: Some(Util::Query), kind: "long query field", start: b"x=".to_vec(), units: vec![b"abc".to_vec(), b"%41".to_vec(), b"+".to_vec()], end: b"z".to_vec() },
        26 => {
            // data of many lines
            let u = vec![b"line\r\n".to_vec(), b"\n".to_vec(), b"\r".to_vec(), b"a much longer line of text; - not -- a delimiter\r\n".to_vec(), b"\r\n-".to_vec(), b"\r\n--".to_vec(), b"\r\n--x".to_vec()];
            body("lines of data", Plan::multipart(b"Bound", &[]), b"--Bound\r\n\r\n", u, b"!\r\n--Bound--")
        }
        27 => Load { plan: None, util: Some(Util::Field), kind: "quoted parameter", start: b"n=\"".to_vec(), units: vec![b"abc".to_vec(), b"\\\"".to_vec(), b"; ".to_vec(), b"\\\\".to_vec()], end: b"\"; z".to_vec() },
        28 => Load { plan: None, util: Some(Util::Field), kind: "long parameter", start: b"n".to_vec(), units: filler(s, b"abcDEF-12"), end: b"=z".to_vec() },
        29 => Load { plan: None, util: Some(Util::Query), kind: "long query name", start: b"x".to_vec(), units: vec![b"abc".to_vec(), b"%41".to_vec(), b"+".to_vec(), b"%c3%a4".to_vec()], end: b"=z".to_vec() },
        30 => Load { plan: None, util: Some(Util::Field), kind: "long parameter of signs", start: b"n".to_vec(), units: vec![b"/".to_vec(), b"A".to_vec(), b"-".to_vec(), b"x/y".to_vec()], end: b"=z".to_vec() },
        31 => Load { plan: None, util: Some(Util::Field), kind: "plain parameter", start: b"n=".to_vec(), units: filler(s, b"abcDEF-12/").into_iter().chain(vec![b"/".to_vec(), b"=".to_vec()]).collect(), end: b"; z".to_vec() },
        32 => body("long pair name", Plan::url(n + 3), b"a", vec![b"abc".to_vec(), b"%e4".to_vec(), b"+".to_vec()], b"=z"),
        _ => Load { plan: None, util: Some(Util::Field), kind: "parameters", start: vec![], units: vec![b"a=b; ".to_vec(), b"x=\"q\\\"r\"; ".to_vec(), b"name; ".to_vec(), b"C=\"v\";".to_vec()], end: b"z".to_vec() },
    }
}

impl Load {
    /// About `n` bytes of it; exactly `n` between start and end where a length is declared.
    fn wire(&self, n: usize, seed: u64) -> Vec<u8> {
        let mut w = self.start.clone();
        let exact = matches!(self.kind, "long chunk" | "part of known length" | "many pairs" | "long pair" | "long pair name");
        let target = self.start.len() + n;
        let mut r = crate::tape::Rng(seed);
        while w.len() < target {
            let u = &self.units[(r.next() >> 33) as usize % self.units.len()];
            if u.is_empty() || exact && w.len() + u.len() > target {
                w.push(b'e');
            } else {
                w.extend_from_slice(u);
            }
        }
        w.extend_from_slice(&self.end);
        w
    }

    /// The plan for a wire of that size.
    fn plan(&self, n: usize) -> Option<Plan> {
        let mut p = self.plan.clone();
        if let Some(ref mut p) = p {
            match self.kind {
                "many pairs" | "long pair name" => p.length = Some(n + 3),
                "long pair" => p.length = Some(n + 4),
                _ => (),
            }
        }
        p
    }
}

/// Calls nothing back; pauses at every `every`th callback if that is not 0. Allocates nothing.
struct Tick {
    every: u32,
    n: u32,
    length: Option<usize>,
}

impl Tick {
    fn t(&mut self) -> bool {
        self.n = self.n.wrapping_add(1);
        self.every == 0 || self.n % self.every != 0
    }
}

impl http1::HttpHandler for Tick {
    fn content_length(&mut self) -> Option<usize> {
        self.length
    }
    fn on_body_finished(&mut self) -> bool {
        self.t()
    }
    fn on_chunk_data(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_chunk_extension_name(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_chunk_extension_value(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_header_name(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_header_value(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_multipart_data(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_url_encoded_name(&mut self, _: &[u8]) -> bool {
        self.t()
    }
    fn on_url_encoded_value(&mut self, _: &[u8]) -> bool {
        self.t()
    }
}

impl http2::HttpHandler for Tick {
    fn on_data(&mut self, _: &[u8], _: bool) -> bool {
        self.t()
    }
    fn on_frame_format(&mut self, _: u32, _: u8, _: u8, _: u32) -> bool {
        self.t()
    }
    fn on_headers_fragment(&mut self, _: &[u8], _: bool) -> bool {
        self.t()
    }
}

macro_rules! pump {
    ($p:expr, $h:expr, $wire:expr, $size:expr) => {{
        let mut taken = 0usize;
        let mut end = "more";
        'all: for sl in $wire.chunks($size) {
            let mut sl: &[u8] = sl;
            loop {
                match $p.resume($h, sl) {
                    Ok(Success::Eos(n)) => {
                        taken += n;
                        break;
                    }
                    Ok(Success::Callback(n)) => {
                        taken += n;
                        sl = &sl[n..];
                        if sl.is_empty() {
                            break;
                        }
                    }
                    Ok(Success::Finished(n)) => {
                        taken += n;
                        end = "finished";
                        break 'all;
                    }
                    Err(_) => {
                        end = "error";
                        break 'all;
                    }
                    #[allow(unreachable_patterns)]
                    _ => panic!("an outcome that is not documented"),
                }
            }
        }
        (taken, end)
    }};
}

/// How the last part of the work is done; nothing in here allocates for itself.
struct Cost {
    taken: usize,
    end: &'static str,
    /// most bytes allocated at one time
    peak: i64,
    /// bytes still allocated afterwards
    left: i64,
    cpu: f64,
    longest: usize,
}

fn work(l: &Load, plan: &Option<Plan>, wire: &[u8], size: usize, every: u32, rounds: usize) -> Cost {
    let start = mem::start_peak();
    let t = mem::cpu();
    let mut longest = 0;
    let (mut taken, mut end) = (0, "");
    match (plan, l.util) {
        (&Some(ref plan), _) => {
            let mut p: http1::Parser<Tick> = http1::Parser::new();
            let mut h = Tick { every, n: 0, length: plan.parts.get(0).cloned().unwrap_or(None) };
            for _ in 0..rounds {
                plan.init(&mut p);
                let r = pump!(p, &mut h, wire, size);
                taken = r.0;
                end = r.1;
            }
        }
        (_, Some(Util::Decode)) => {
            let r = util::decode(wire);
            longest = wire.len();
            taken = wire.len();
            end = if r.is_ok() { "finished" } else { "error" };
        }
        (_, Some(Util::Query)) => {
            let mut it = util::QueryIterator::new(wire);
            it.on_error(move |_| assert!(every < 1000));
            while let Some((a, b)) = it.next() {
                longest = longest.max(a.len() + b.map_or(0, |b| b.len()));
            }
            taken = wire.len();
            end = "finished";
        }
        (_, Some(Util::Field)) => {
            let mut it = util::FieldIterator::new(wire, b';', true);
            it.on_error(move |_| assert!(every < 1000));
            while let Some((a, b)) = it.next() {
                longest = longest.max(a.len() + b.map_or(0, |b| b.len()));
            }
            taken = wire.len();
            end = "finished";
        }
        _ => {
            let mut p: http2::Parser<Tick> = http2::Parser::new();
            let mut h = Tick { every, n: 0, length: None };
            for i in 0..rounds {
                if i % 2 == 1 {
                    p.reset();
                }
                let r = pump!(p, &mut h, wire, size);
                taken = r.0;
                end = r.1;
            }
        }
    }
    let cpu = mem::cpu() - t;
    Cost { taken, end, peak: mem::peak() - start, left: mem::live() - start, cpu, longest }
}

fn about(l: &Load, plan: &Option<Plan>, wire: &[u8], size: usize, every: u32) -> String {
    format!(
        "{} ({} bytes, {}{:?}, units {:?}), slices of {} bytes{}",
        l.kind,
        wire.len(),
        plan.as_ref().map_or(String::new(), |p| format!("{}, start ", p.show())),
        show(&l.start[..l.start.len().min(80)]),
        l.units.iter().map(|u| show(&u[..u.len().min(60)])).collect::<Vec<_>>(),
        size,
        if every > 0 { format!(", a pause at every callback number {}", every) } else { String::new() }
    )
}

const SIZES: [usize; 7] = [usize::MAX, 1, 7, 100, 1460, 16384, 65536];

// ------------------------------------------------------------------------------------------ memory

/// What a parser may allocate in all, however long the input is.
const SLACK: i64 = 16384;

fn c37(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(64) {
        return c37_many(s, st);
    }
    let k = s.below(KINDS);
    let n = *s.pick(&[131072usize, 262144, 90000, 400000]);
    let l = load(s, k, n);
    let wire = l.wire(n, s.byte() as u64);
    let plan = l.plan(n);
    let size = *s.pick(&SIZES);
    let every = *s.pick(&[0u32, 0, 1, 2, 5, 17]);
    let c = work(&l, &plan, &wire, size, every, 1);
    st.runs += 1;
    st.class(l.kind);
    st.class(match c.end {
        "error" => "rejected",
        _ => "taken to the end",
    });
    st.nontrivial(c.taken >= 65536, &[&[k as u8][..], &wire[..wire.len().min(3000)], &size.to_le_bytes(), &[every as u8]].concat());
    st.sample(|| format!("peak {} left {}: {}", c.peak, c.left, about(&l, &plan, &wire, size, every)));
    let bound = SLACK + 4 * plan.as_ref().and_then(|p| p.boundary.as_ref()).map_or(0, |b| b.len() as i64) + 8 * c.longest as i64;
    ensure!(
        c.peak <= bound,
        "{} bytes are allocated at one time (more than {}) for {}", c.peak, bound, about(&l, &plan, &wire, size, every)
    );
    ensure!(c.left <= 4096, "{} bytes are still allocated after {}", c.left, about(&l, &plan, &wire, size, every));
    Ok(())
}

/// Many small elements on one parser, and many parsers.
fn c37_many(s: &mut Src, st: &mut Stats) -> Check {
    let k = s.below(KINDS);
    let n = s.range(1, 60);
    let l = load(s, k, n);
    let mut wire = l.wire(n, s.byte() as u64);
    if wire.len() > 8000 {
        return Ok(());
    }
    match s.below(4) {
        0 => {
            h1gen::mutate(s, &mut wire);
            st.class("changed");
        }
        1 => {
            let n = s.below(wire.len() + 1);
            wire.truncate(n);
            st.class("cut short");
        }
        _ => (),
    }
    let plan = l.plan(n);
    let rounds = 400_000 / (wire.len() + 100);
    let every = *s.pick(&[0u32, 1, 3]);
    let size = *s.pick(&[usize::MAX, 1, 7]);
    let one = work(&l, &plan, &wire, size, every, rounds);
    st.runs += rounds as u64;
    st.class("many elements");
    st.nontrivial(rounds > 50, &[&[k as u8][..], &wire[..wire.len().min(3000)], &size.to_le_bytes()].concat());
    st.sample(|| format!("peak {} left {}: {} times {}", one.peak, one.left, rounds, about(&l, &plan, &wire, size, every)));
    let bound = SLACK + 4 * plan.as_ref().and_then(|p| p.boundary.as_ref()).map_or(0, |b| b.len() as i64) + 8 * one.longest as i64;
    ensure!(
        one.peak <= bound && one.left <= 4096,
        "{} bytes at one time, {} afterwards, for {} times {}", one.peak, one.left, rounds, about(&l, &plan, &wire, size, every)
    );
    let before = mem::live();
    for _ in 0..rounds {
        let _ = work(&l, &plan, &wire, size, every, 1);
    }
    let left = mem::live() - before;
    ensure!(left <= 4096, "{} bytes are still allocated after {} parsers for {}", left, rounds, about(&l, &plan, &wire, size, every));
    Ok(())
}

// ------------------------------------------------------------------------------------------ waiting

fn data1(t: &[u16]) -> usize {
    t.iter().filter(|x| **x < 0x100).count()
}

fn c38(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(90) {
        return c38_http2(s, st);
    }
    let (plan, mut wire) = h1p::any_element(s, st, false);
    let small = s.chance(240);
    wire.truncate(if small { 400 } else { 4000 });
    if let (Mode::Url, Some(l)) = (plan.mode, plan.length) {
        wire.truncate(l.saturating_sub(1));
    }
    // what the bytes up to each one say
    let mut m = Model::new(&plan);
    let mut want = vec![0];
    for &b in &wire {
        m.step(b);
        if m.end != h1::End::More || m.unspecified {
            break;
        }
        want.push(m.t.t.len());
    }
    let n = want.len() - 1;
    st.nontrivial(n > 1, &wire);
    st.sample(|| h1p::describe(&plan, &wire, &[]));
    let check = |cuts: &[usize], ends: &[usize], pause: h1::Pause, st: &mut Stats| -> Check {
        let sl = slices(&wire[..n], cuts);
        let (lens, out) = h1::run_steps_with(&plan, &sl, pause);
        st.runs += 1;
        ensure!(
            out.end == h1::End::More && lens.len() == sl.len(),
            "{}\n {}", out.show(), h1p::describe(&plan, &wire[..n], cuts)
        );
        for (i, &e) in ends.iter().enumerate() {
            let (got, all) = (data1(&out.t[..lens[i]]), data1(&m.t.t[..want[e]]));
            ensure!(
                got >= all,
                "after {} bytes only {} data bytes are reported of the {} received: {}\n expected {}\n {}",
                e, got, all, h1::show_t(&out.t[..lens[i]]), h1::show_t(&m.t.t[..want[e]]), h1p::describe(&plan, &wire[..n], cuts)
            );
            ensure!(
                lens[i] >= want[e],
                "after {} bytes not everything that they settle is reported: {}\n expected {}\n {}",
                e, h1::show_t(&out.t[..lens[i]]), h1::show_t(&m.t.t[..want[e]]), h1p::describe(&plan, &wire[..n], cuts)
            );
        }
        Ok(())
    };
    let all: Vec<usize> = (1..n).collect();
    let ends: Vec<usize> = (1..=n).collect();
    if n == 0 {
        return Ok(());
    }
    check(&all, &ends, h1::Pause::Never, st)?;
    if s.chance(64) {
        st.class("pauses");
        check(&all, &ends, h1p::pause_plan(s, 20), st)?;
    }
    for _ in 0..2 {
        let cuts = s.cuts(n);
        let mut ends = cuts.clone();
        ends.push(n);
        let pause = if s.chance(64) { h1p::pause_plan(s, 20) } else { h1::Pause::Never };
        check(&cuts, &ends, pause, st)?;
    }
    if small {
        for k in 1..n {
            check(&[k], &[k, n], h1::Pause::Never, st)?;
        }
    }
    Ok(())
}

/// The numbers of payload bytes and of events (frame header, fixed fields, end of the data) to report
/// among the first bytes, for each number of bytes.
fn payload_received(wire: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    let (mut n, mut ev) = (0, 0);
    let mut i = 0;
    while i + 9 <= wire.len() {
        let len = (wire[i] as usize) << 16 | (wire[i + 1] as usize) << 8 | wire[i + 2] as usize;
        let (ty, flags) = (wire[i + 3], wire[i + 4]);
        let padded = flags & h2::PADDED != 0 && (matches!(ty, 0 | 1 | 5) || ty > 9);
        let mut skip = match ty {
            1 if flags & h2::PRIO != 0 => 5,
            5 => 4,
            7 => 8,
            2 | 3 | 4 | 8 => len,
            _ => 0,
        };
        let fixed = skip > 0 || ty == 1 && padded;
        let mut after = 0;
        let body = &wire[i + 9..];
        if padded {
            skip += 1;
            after = body.get(0).cloned().unwrap_or(0) as usize;
        }
        let body = &body[..len.min(body.len())];
        for _ in 0..8 {
            v.push((n, ev));
        }
        let ends = matches!(ty, 0 | 1 | 5 | 6) || ty > 8 || ty == 7 && len > 8;
        ev += 1 + (ends && len == 0) as usize;
        v.push((n, ev));
        for k in 0..body.len() {
            n += (k >= skip && k < len - after) as usize;
            ev += (fixed && k + 1 == skip) as usize + (ends && k + 1 == skip.max(len - after)) as usize;
            v.push((n, ev));
        }
        i += 9 + len;
    }
    v
}

fn c38_http2(s: &mut Src, st: &mut Stats) -> Check {
    let m = h2::stream(s, 4, false);
    let wire = &m.wire[..m.wire.len().min(1200)];
    let want = payload_received(wire);
    let n = want.len() - 1;
    st.class("http2");
    st.nontrivial(want[n].0 > 0, wire);
    st.sample(|| h2p::describe(wire, &[]));
    let events = |t: &[u64]| t.iter().filter(|x| **x >= h2::TAG && !matches!(**x, h2::DATA | h2::DEBUG_DATA | h2::FRAGMENT | h2::PING | h2::UNSUPPORTED)).count();
    let check = |cuts: &[usize], ends: &[usize], pause: h2::Pause, st: &mut Stats| -> Check {
        let sl = slices(&wire[..n], cuts);
        let mut p: http2::Parser<h2::Rec> = http2::Parser::new();
        let mut rec = h2::Rec::new(pause);
        rec.cap = 4096 + 16 * n;
        let mut taken = 0;
        let mut got = vec![];
        let end = h2::feed(&mut p, &mut rec, &sl, true, &mut h2::rec_paused, &mut taken, &mut |_, h| got.push((h.data_bytes, h.t.t.len())));
        st.runs += 1;
        ensure!(end == h2::End::More && got.len() == sl.len(), "{:?}\n {}", end, h2p::describe(wire, cuts));
        for (i, &e) in ends.iter().enumerate() {
            ensure!(
                got[i].0 >= want[e].0,
                "after {} bytes only {} payload bytes are reported of the {} received\n {}", e, got[i].0, want[e].0, h2p::describe(wire, cuts)
            );
            let seen = events(&rec.t.t[..got[i].1]);
            ensure!(
                seen >= want[e].1,
                "after {} bytes only {} of {} frame headers, fixed fields and ends of data are reported: {}\n {}",
                e, seen, want[e].1, h2::show_t(&rec.t.t[..got[i].1]), h2p::describe(wire, cuts)
            );
        }
        Ok(())
    };
    let all: Vec<usize> = (1..n).collect();
    let ends: Vec<usize> = (1..=n).collect();
    check(&all, &ends, h2::Pause::Never, st)?;
    for _ in 0..3 {
        let cuts = s.cuts(n);
        let mut ends = cuts.clone();
        ends.push(n);
        let pause = if s.chance(64) { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
        check(&cuts, &ends, pause, st)?;
    }
    if n < 300 {
        for k in 1..n {
            check(&[k], &[k, n], h2::Pause::Never, st)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- views

/// Looks at where the data of the callbacks lies.
#[derive(Default)]
struct View {
    /// the slice given to the current call
    lo: usize,
    hi: usize,
    /// the end of the last piece of it that was reported
    at: usize,
    /// length up to which data may lie elsewhere
    short: usize,
    every: u32,
    calls: usize,
    data: usize,
    views: usize,
    long: usize,
    bad: Option<String>,
    parts: Vec<Option<usize>>,
    part: usize,
    known: bool,
}

impl View {
    fn begin(&mut self, sl: &[u8]) {
        self.lo = sl.as_ptr() as usize;
        self.hi = self.lo + sl.len();
        self.at = self.lo;
    }
    fn call(&mut self) -> bool {
        self.calls += 1;
        self.every == 0 || self.calls as u32 % self.every != 0
    }
    fn see(&mut self, what: &str, d: &[u8]) -> bool {
        self.data += d.len();
        let a = d.as_ptr() as usize;
        let e = a + d.len();
        if !d.is_empty() {
            if a >= self.lo && e <= self.hi {
                self.views += 1;
                if a < self.at && self.bad.is_none() {
                    self.bad = Some(format!("{}: bytes {} to {} of the slice are reported after bytes up to {}", what, a - self.lo, e - self.lo, self.at - self.lo));
                }
                self.at = e;
                if d.len() > self.short {
                    self.long += 1;
                }
            } else if d.len() > self.short && self.bad.is_none() {
                self.bad = Some(format!("{}: {} bytes that are not in the slice: {}", what, d.len(), show(&d[..d.len().min(200)])));
            }
        }
        self.call()
    }
}

impl http1::HttpHandler for View {
    fn content_length(&mut self) -> Option<usize> {
        if self.known && self.part > 0 { self.parts.get(self.part - 1).cloned().unwrap_or(None) } else { None }
    }
    fn on_body_finished(&mut self) -> bool {
        self.call()
    }
    fn on_chunk_begin(&mut self) -> bool {
        self.call()
    }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool {
        self.see("chunk data", d)
    }
    fn on_chunk_extension_finished(&mut self) -> bool {
        self.call()
    }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool {
        self.see("extension name", d)
    }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool {
        self.see("extension value", d)
    }
    fn on_chunk_extensions_finished(&mut self) -> bool {
        self.call()
    }
    fn on_chunk_length(&mut self, _: usize) -> bool {
        self.call()
    }
    fn on_header_name(&mut self, d: &[u8]) -> bool {
        self.see("header name", d)
    }
    fn on_header_value(&mut self, d: &[u8]) -> bool {
        self.see("header value", d)
    }
    fn on_headers_finished(&mut self) -> bool {
        self.known = true;
        self.call()
    }
    fn on_initial_finished(&mut self) -> bool {
        self.call()
    }
    fn on_method(&mut self, d: &[u8]) -> bool {
        self.see("method", d)
    }
    fn on_multipart_begin(&mut self) -> bool {
        self.part += 1;
        self.known = false;
        self.call()
    }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool {
        self.see("part data", d)
    }
    fn on_status(&mut self, d: &[u8]) -> bool {
        self.see("status", d)
    }
    fn on_status_code(&mut self, _: u16) -> bool {
        self.call()
    }
    fn on_url(&mut self, d: &[u8]) -> bool {
        self.see("url", d)
    }
    fn on_url_encoded_begin(&mut self) -> bool {
        self.call()
    }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool {
        self.see("pair name", d)
    }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool {
        self.see("pair value", d)
    }
    fn on_version(&mut self, _: u16, _: u16) -> bool {
        self.call()
    }
}

impl http2::HttpHandler for View {
    fn on_data(&mut self, d: &[u8], _: bool) -> bool {
        self.see("data", d)
    }
    fn on_frame_format(&mut self, _: u32, _: u8, _: u8, _: u32) -> bool {
        self.call()
    }
    fn on_go_away(&mut self, _: u32, _: u32) -> bool {
        self.call()
    }
    fn on_go_away_debug_data(&mut self, d: &[u8], _: bool) -> bool {
        self.see("debug data", d)
    }
    fn on_headers(&mut self, _: bool, _: u32, _: u8) -> bool {
        self.call()
    }
    fn on_headers_fragment(&mut self, d: &[u8], _: bool) -> bool {
        self.see("fragment", d)
    }
    fn on_ping(&mut self, d: &[u8], _: bool) -> bool {
        self.see("ping", d)
    }
    fn on_priority(&mut self, _: bool, _: u32, _: u8) -> bool {
        self.call()
    }
    fn on_push_promise(&mut self, _: u32) -> bool {
        self.call()
    }
    fn on_rst_stream(&mut self, _: u32) -> bool {
        self.call()
    }
    fn on_settings(&mut self, _: u16, _: u32) -> bool {
        self.call()
    }
    fn on_unsupported(&mut self, d: &[u8], _: bool) -> bool {
        self.see("unsupported", d)
    }
    fn on_window_update(&mut self, _: u32) -> bool {
        self.call()
    }
}

/// Returns the bytes taken. The views are checked against the bytes taken by each call.
macro_rules! watch {
    ($p:expr, $h:expr, $slices:expr) => {{
        let mut taken = 0usize;
        'all: for sl in $slices {
            let mut sl: &[u8] = sl;
            loop {
                $h.begin(sl);
                let r = $p.resume($h, sl);
                let n = match r {
                    Ok(Success::Eos(n)) | Ok(Success::Callback(n)) | Ok(Success::Finished(n)) => n,
                    Err(_) => sl.len(),
                    #[allow(unreachable_patterns)]
                    _ => panic!("an outcome that is not documented"),
                };
                if $h.at > $h.lo + n && $h.bad.is_none() {
                    $h.bad = Some(format!("bytes up to {} are reported, but only {} taken", $h.at - $h.lo, n));
                }
                taken += n;
                match r {
                    Ok(Success::Eos(_)) => break,
                    Ok(Success::Callback(n)) => {
                        sl = &sl[n..];
                        if sl.is_empty() {
                            break;
                        }
                    }
                    _ => break 'all,
                }
            }
        }
        taken
    }};
}

/// How many callbacks come at most: a few for each byte.
fn most_calls(taken: usize, slices: usize) -> usize {
    3 * taken + slices + 4
}

fn c40(s: &mut Src, st: &mut Stats) -> Check {
    let http2 = s.chance(80);
    let every = *s.pick(&[0u32, 0, 0, 1, 2, 5]);
    let (plan, wire) = if http2 {
        let big = s.chance(2);
        let m = h2::stream(s, 6, big);
        (None, m.wire)
    } else if s.chance(60) {
        // something long
        let k = s.below(KINDS);
        let n = *s.pick(&[300usize, 1000, 5000, 70000]);
        let l = load(s, k, n);
        if l.util.is_some() {
            return Ok(());
        }
        (l.plan(n), l.wire(n, s.byte() as u64))
    } else {
        let (p, w) = h1p::any_element(s, st, true);
        (Some(p), w)
    };
    for i in 0..2 {
        let cuts = if i == 0 { vec![] } else { s.cuts(wire.len()) };
        let sl = slices(&wire, &cuts);
        let mut v = View { every, short: 48, ..View::default() };
        let taken = match plan {
            Some(ref plan) => {
                v.short += plan.boundary.as_ref().map_or(0, |b| b.len());
                v.parts = plan.parts.clone();
                let mut p: http1::Parser<View> = http1::Parser::new();
                plan.init(&mut p);
                watch!(p, &mut v, &sl)
            }
            None => {
                v.short = 0;
                let mut p: http2::Parser<View> = http2::Parser::new();
                watch!(p, &mut v, &sl)
            }
        };
        st.runs += 1;
        st.class(if http2 { "http2" } else { "http1" });
        st.class_if(v.long > 0, "long data");
        st.nontrivial(v.views > 0, &wire);
        let text = || {
            let d = match plan {
                Some(ref plan) => h1p::describe(plan, &wire[..wire.len().min(3000)], &cuts),
                None => h2p::describe(&wire[..wire.len().min(3000)], &cuts),
            };
            format!("{} callbacks with {} bytes for {} bytes taken, a pause at every callback number {}: {}", v.calls, v.data, taken, every, d)
        };
        st.sample(|| text());
        if let Some(ref b) = v.bad {
            return Err(format!("{}\n {}", b, text()));
        }
        ensure!(v.data <= taken, "more bytes are reported than were taken\n {}", text());
        ensure!(v.calls <= most_calls(taken, sl.len()), "too many callbacks\n {}", text());
    }
    Ok(())
}

// -------------------------------------------------------------------------------------------- time

fn time_of(l: &Load, n: usize, size: usize, every: u32) -> (f64, usize, String) {
    let wire = l.wire(n, 1);
    let plan = l.plan(n);
    let c = work(l, &plan, &wire, size, every, 1);
    (c.cpu, c.taken, about(l, &plan, &wire, size, every))
}

fn check_time(mut l: Load, k: usize, size: usize, every: u32, st: &mut Stats) -> Check {
    // declared lengths follow the size
    let mut sized = |n: usize| {
        match l.kind {
            "long chunk" => l.start = format!("{:x}\r\n", n).into_bytes(),
            "part of known length" => l.plan = Some(Plan::multipart(b"Bound", &[Some(n)])),
            _ => (),
        }
        time_of(&l, n, size, every)
    };
    let small = 1 << 17;
    let mut base = (0..3).map(|_| sized(small).0).fold(1e9, f64::min);
    let mut last = String::new();
    for f in [8usize, 64] {
        let (t, taken, a) = sized(small * f);
        st.runs += 1;
        st.nontrivial(taken >= small * f, &[k as u8, every as u8, size as u8, (size >> 8) as u8]);
        let slow = |base: f64, t: f64| t > 1.0 && t > 6.0 * f as f64 * base;
        if slow(base, t) {
            // again
            base = base.max((0..3).map(|_| sized(small).0).fold(1e9, f64::min));
            let again = sized(small * f).0;
            ensure!(
                !slow(base, again.min(t)),
                "{:.2} s for {} times the input that takes {:.4} s: {}", again.min(t), f, base, a
            );
        }
        last = format!("{:.3} s for {} times the input that takes {:.4} s: {}", t, f, base, a);
    }
    st.sample(|| last.clone());
    Ok(())
}

fn c39(s: &mut Src, st: &mut Stats) -> Check {
    let k = s.below(KINDS);
    let size = *s.pick(&SIZES);
    let every = *s.pick(&[0u32, 0, 1, 3]);
    check_time(load(s, k, 0), k, size, every, st)
}

/// Each kind with all of its units and with a single one.
fn c39_enum(i: u64, st: &mut Stats) -> Check {
    let mut s = Src::random(i * 17 + 5);
    let (k, i) = (i as usize % KINDS, i as usize / KINDS);
    let mut l = load_all(&mut s, k, 0);
    let v = i / 2;
    if v > 0 {
        if v > l.units.len() {
            return Ok(());
        }
        l.units = vec![l.units.swap_remove(v - 1)];
    }
    check_time(l, k, [usize::MAX, 1460][i % 2], 0, st)
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, enumerated, e: fn(u64, &mut Stats) -> Check, quick, thorough, rule| v.push(Prop { id, f, enumerated, e, long: 0, l: no_enum, quick, thorough, rule });
    add("C37", c37, 0, no_enum, 20_000, 1_200_000, "Elements of 90 to 400 KB of 34 kinds (one long item or many short ones, of each mode, HTTP/2 and the utilities), in slices of seven sizes and with pauses, and up to thousands of small, changed or cut elements on one parser and on as many parsers. A counting allocator gives the most bytes allocated at one time and those left. Non-trivial: at least 64 KB taken, or more than 50 rounds.");
    add("C38", c38, 0, no_enum, 250_000, 15_000_000, "A valid element or stream is fed byte by byte, cut into two at every byte and in random partitions; after each slice the handler must have all data bytes received and all events settled so far. Non-trivial: more than one byte, or a payload.");
    add("C39", c39, 16 * KINDS as u64, c39_enum, 600, 36_000, "34 kinds of inputs (as C37) at 128 KB, 1 MB and 8 MB, in slices of seven sizes and with pauses; CPU time per byte may grow sixfold at most. Enumerated on top: each kind, with all of its short pieces and with a single one of them, in one slice and in slices of 1460 bytes. Non-trivial: the input is taken to its end.");
    add("C40", c40, 0, no_enum, 800_000, 48_000_000, "Elements and streams, valid, changed or long (up to 70 KB), in one slice and in a random partition, with and without pauses; a handler records where the data of each callback lies. Non-trivial: at least one callback got a part of the slice.");
}
