//! Long histories: tens of thousands of elements of one kind, hundreds of parsers, byte counts beyond
//! 32 bits. Enumerated on top of the random cases of the properties below.

use super::{h1p, h2p, utilp, Prop};
use crate::ensure;
use crate::h1::{self, Pause, Plan, BODY_FINISHED, CHUNK_BEGIN, CHUNK_DATA, EXTS_FINISHED, HEADERS_FINISHED, PART_BEGIN, PART_DATA};
use crate::h1gen::{self as g, Msg};
use crate::h2;
use crate::stats::{Check, Stats};
use crate::tape::{mix, show, slices, Rng, Src};
use http_box::fsm::Success;
use http_box::{http1, http2};

/// More than fits into 8, 14 and 16 bits.
const COUNTS: [usize; 3] = [1000, 17_000, 66_000];

fn src(salt: u64, i: u64) -> Src {
    Src::random(mix(0x5CA1E ^ salt, mix(i, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1))))
}

fn pick_count(i: u64) -> usize {
    COUNTS[(i % 3) as usize] + (i / 3 % 7) as usize
}

/// Repeat what `item` makes (40 different ones) `n` times.
fn repeat(s: &mut Src, n: usize, m: &mut Msg, item: &mut dyn FnMut(&mut Src, &mut Msg)) {
    let mut pool: Vec<Msg> = vec![];
    while pool.len() < 40 {
        let mut m = Msg::default();
        item(s, &mut m);
        if m.wire.len() < 400 {
            pool.push(m);
        }
    }
    let mut rng = Rng(s.u32() as u64);
    for _ in 0..n {
        let p = &pool[(rng.next() % 40) as usize];
        m.wire.extend_from_slice(&p.wire);
        m.append(&p.t);
    }
}

impl Msg {
    /// A transcript that starts with a mark or a kind of data that does not end this one.
    fn append(&mut self, t: &h1::T) {
        self.t.t.extend_from_slice(&t.t);
        self.t.close();
    }
}

fn short_boundary(s: &mut Src) -> Vec<u8> {
    loop {
        let b = g::boundary(s);
        if b.len() < 100 {
            return b;
        }
    }
}

fn many_headers(s: &mut Src, n: usize, m: &mut Msg) {
    repeat(s, n, m, &mut |s, m| g::header(s, m));
    m.wire.extend_from_slice(b"\r\n");
    m.t.mark(HEADERS_FINISHED);
}

fn many(kind: usize, n: usize, s: &mut Src) -> (Plan, Msg) {
    let mut m = Msg::default();
    match kind {
        0 => {
            g::request_line(s, &mut m);
            many_headers(s, n, &mut m);
            (Plan::head(true), m)
        }
        1 => {
            g::status_line(s, &mut m);
            many_headers(s, n, &mut m);
            (Plan::head(true), m)
        }
        2 => {
            // chunks
            repeat(s, n, &mut m, &mut |s, m| {
                let len = 1 + s.below(40);
                let data = g::tricky_data(s, len);
                m.t.mark(CHUNK_BEGIN);
                let size = g::chunk_size_text(s, len);
                m.wire.extend_from_slice(&size);
                m.t.chunk_length(len);
                g::extensions(s, m);
                m.t.mark(EXTS_FINISHED);
                m.wire.extend_from_slice(b"\r\n");
                m.wire.extend_from_slice(&data);
                m.wire.extend_from_slice(b"\r\n");
                m.t.data(CHUNK_DATA, &data);
            });
            g::last_chunk(s, &mut m);
            (Plan::chunked(), m)
        }
        3 => {
            // extensions of one chunk
            m.t.mark(CHUNK_BEGIN);
            m.wire.extend_from_slice(b"2");
            m.t.chunk_length(2);
            repeat(s, n, &mut m, &mut |s, m| g::extension(s, m));
            m.t.mark(EXTS_FINISHED);
            m.wire.extend_from_slice(b"\r\nab\r\n");
            m.t.data(CHUNK_DATA, b"ab");
            g::last_chunk(s, &mut m);
            (Plan::chunked(), m)
        }
        4 => {
            // trailers
            m.t.mark(CHUNK_BEGIN);
            m.wire.extend_from_slice(b"0\r\n");
            m.t.chunk_length(0);
            many_headers(s, n, &mut m);
            m.t.mark(BODY_FINISHED);
            (Plan::chunked(), m)
        }
        5 | 6 => {
            // parts; 6: with lengths
            let b = short_boundary(s);
            m.wire.extend_from_slice(b"--");
            m.wire.extend_from_slice(&b);
            let mut lengths = vec![];
            let mut pool = vec![];
            let mut k = 0;
            while pool.len() < 40 {
                k += 1;
                let mut p = Msg::default();
                p.wire.extend_from_slice(b"\r\n");
                p.t.mark(PART_BEGIN);
                g::headers(s, &mut p);
                let (d, l) = if kind == 6 && k % 4 < 3 {
                    let l = s.below(60);
                    let d = g::tricky_data(s, l);
                    let l = d.len();
                    (d, Some(l))
                } else {
                    (g::part_data(s, &b).0, None)
                };
                p.t.data(PART_DATA, &d);
                p.wire.extend_from_slice(&d);
                p.wire.extend_from_slice(b"\r\n--");
                p.wire.extend_from_slice(&b);
                if p.wire.len() < 400 {
                    pool.push((p, l));
                }
            }
            let mut rng = Rng(s.u32() as u64);
            for _ in 0..n {
                let (p, l) = &pool[(rng.next() % 40) as usize];
                m.wire.extend_from_slice(&p.wire);
                m.append(&p.t);
                lengths.push(*l);
            }
            m.wire.extend_from_slice(b"--");
            m.t.mark(BODY_FINISHED);
            if kind == 5 {
                lengths.clear();
            }
            (Plan::multipart(&b, &lengths), m)
        }
        7 => {
            // headers of one part
            let b = short_boundary(s);
            m.wire.extend_from_slice(b"--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"\r\n");
            m.t.mark(PART_BEGIN);
            many_headers(s, n, &mut m);
            m.t.data(PART_DATA, b"xyz");
            m.wire.extend_from_slice(b"xyz\r\n--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"--");
            m.t.mark(BODY_FINISHED);
            (Plan::multipart(&b, &[]), m)
        }
        8 => {
            // a part whose data consists of look-alikes of its boundary
            let b = short_boundary(s);
            m.wire.extend_from_slice(b"--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"\r\n\r\n");
            m.t.mark(PART_BEGIN);
            m.t.mark(HEADERS_FINISHED);
            let mut d = vec![];
            let pool: Vec<Vec<u8>> = (0..40).map(|_| g::part_data(s, &b).0).collect();
            let mut rng = Rng(s.u32() as u64);
            for _ in 0..n {
                if d.len() > 3_000_000 {
                    break;
                }
                d.extend_from_slice(&pool[(rng.next() % 40) as usize]);
                d.push(b'.');
            }
            m.t.data(PART_DATA, &d);
            m.wire.extend_from_slice(&d);
            m.wire.extend_from_slice(b"\r\n--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"--");
            m.t.mark(BODY_FINISHED);
            (Plan::multipart(&b, &[]), m)
        }
        11..=25 => long_element(kind, n, s),
        _ => {
            // pairs
            let mut pool = vec![];
            for _ in 0..40 {
                let text = |s: &mut Src| if kind == 9 { g::any_text(s, 60) } else { g::utf8_text(s, 60).into_bytes() };
                let name = text(s);
                let mut w = vec![];
                g::encode(s, &name, b"=&;", &mut w);
                let value = if s.chance(180) {
                    w.push(b'=');
                    let v = text(s);
                    g::encode(s, &v, b"&;", &mut w);
                    Some(v)
                } else {
                    None
                };
                if w.is_empty() || kind == 10 && name.is_empty() {
                    w = b"z".to_vec();
                    pool.push((w, g::Pair { name: b"z".to_vec(), value: None }));
                } else {
                    pool.push((w, g::Pair { name, value }));
                }
            }
            let mut rng = Rng(s.u32() as u64);
            for i in 0..n {
                let (w, p) = &pool[(rng.next() % 40) as usize];
                if i > 0 {
                    m.wire.push(b"&;"[(rng.next() % 2) as usize]);
                }
                m.wire.extend_from_slice(w);
                g::pairs_t(std::slice::from_ref(p), &mut m.t, false);
            }
            m.t.mark(BODY_FINISHED);
            (Plan::url(m.wire.len()), m)
        }
    }
}

/// One element of n bytes or a little more.
fn long_element(kind: usize, n: usize, s: &mut Src) -> (Plan, Msg) {
    let mut m = Msg::default();
    // n bytes, each of them one that `ok` accepts
    let fill = |s: &mut Src, ok: &dyn Fn(u8) -> bool, plain: bool| -> Vec<u8> {
        let good: Vec<u8> = (0..=255).filter(|&b| ok(b)).collect();
        if plain {
            vec![good[s.below(good.len())]; n]
        } else {
            s.bulk(n).iter().map(|&b| good[b as usize % good.len()]).collect()
        }
    };
    let plain = s.chance(100);
    let visible = |b: u8| b > 0x20 && b < 0x7F;
    let solid = |b: u8| g::is_field(b) && b != b' ' && b != b'\t';
    match kind {
        11..=18 => {
            if kind == 18 {
                let v = fill(s, &|b| b"\r\n \t".contains(&b), plain);
                m.wire.extend_from_slice(&v);
            }
            match kind {
                11 | 12 => {
                    let me = if kind == 11 { fill(s, &|b| b.is_ascii_uppercase(), plain) } else { g::method(s) };
                    let url = if kind == 12 { fill(s, &visible, plain) } else { g::url(s) };
                    m.t.data(h1::METHOD, &me);
                    m.t.data(h1::URL, &url);
                    m.t.version(1, 1);
                    m.t.mark(h1::INITIAL_FINISHED);
                    m.wire.extend_from_slice(&me);
                    m.wire.push(b' ');
                    m.wire.extend_from_slice(&url);
                    m.wire.extend_from_slice(b" HTTP/1.1\r\n");
                }
                13 => {
                    let reason = fill(s, &|b| b > 0x1F && b != 0x7F, plain);
                    m.t.version(1, 0);
                    m.t.status_code(200);
                    m.t.data(h1::STATUS, &reason);
                    m.t.mark(h1::INITIAL_FINISHED);
                    m.wire.extend_from_slice(b"HTTP/1.0 200 ");
                    m.wire.extend_from_slice(&reason);
                    m.wire.extend_from_slice(b"\r\n");
                }
                _ if s.chance(128) => g::request_line(s, &mut m),
                _ => g::status_line(s, &mut m),
            }
            if s.chance(128) {
                g::header(s, &mut m);
            }
            let name = if kind == 14 { fill(s, &g::is_token, plain) } else { g::header_name(s) };
            m.t.data(h1::HEADER_NAME, &name.to_ascii_lowercase());
            m.wire.extend_from_slice(&name);
            m.wire.push(b':');
            let (wire, value) = match kind {
                15 => {
                    let v = fill(s, &solid, plain);
                    (v.clone(), v)
                }
                16 => {
                    // quoted, with escapes
                    let mut v = vec![b'"'];
                    for b in fill(s, &|b| b > 0x1F && b < 0x7B, plain) {
                        if b == b'"' || b == b'\\' || b == b'7' {
                            v.push(b'\\');
                        }
                        v.push(b);
                    }
                    v.push(b'"');
                    (v.clone(), v)
                }
                17 => {
                    // white space before it, lines that continue it
                    let mut w = fill(s, &|b| b == b' ' || b == b'\t', plain);
                    let mut v = vec![];
                    for i in 0..n / 3 {
                        w.extend_from_slice(b"\r\n ");
                        if i % 5 != 1 {
                            w.push(b'a' + (i % 23) as u8);
                            v.push(b'a' + (i % 23) as u8);
                        }
                    }
                    (w, v)
                }
                _ => g::header_value(s),
            };
            m.t.data(h1::HEADER_VALUE, &value);
            m.wire.extend_from_slice(&wire);
            m.wire.extend_from_slice(b"\r\n");
            g::headers(s, &mut m);
            (Plan::head(kind != 18), m)
        }
        19..=21 => {
            g::chunked_start(s, &mut m);
            let data = if kind == 21 { fill(s, &|_| true, plain) } else { b"\r\n0".to_vec() };
            m.t.mark(CHUNK_BEGIN);
            m.t.chunk_length(data.len());
            m.wire.extend_from_slice(format!("{:x}", data.len()).as_bytes());
            if kind != 21 {
                let name = if kind == 19 { fill(s, &g::is_token, plain) } else { b"A".to_vec() };
                m.t.data(h1::EXT_NAME, &name.to_ascii_lowercase());
                m.wire.push(b';');
                m.wire.extend_from_slice(&name);
                m.wire.push(b'=');
                if kind == 20 {
                    let v = fill(s, &|b| b > 0x1F && b < 0x7B, plain);
                    m.t.data(h1::EXT_VALUE, &v);
                    m.wire.push(b'"');
                    for b in v {
                        if b == b'"' || b == b'\\' || b == b'7' {
                            m.wire.push(b'\\');
                        }
                        m.wire.push(b);
                    }
                    m.wire.push(b'"');
                } else {
                    m.wire.push(b'v');
                    m.t.data(h1::EXT_VALUE, b"v");
                }
                m.t.mark(h1::EXT_FINISHED);
            }
            m.t.mark(EXTS_FINISHED);
            m.t.data(CHUNK_DATA, &data);
            m.wire.extend_from_slice(b"\r\n");
            m.wire.extend_from_slice(&data);
            m.wire.extend_from_slice(b"\r\n");
            g::last_chunk(s, &mut m);
            (Plan::chunked(), m)
        }
        22 | 23 => {
            let b = short_boundary(s);
            m.wire.extend_from_slice(b"--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"\r\n");
            m.t.mark(PART_BEGIN);
            g::headers(s, &mut m);
            // without its length, no line end in the data comes before a hyphen
            let d: Vec<u8> = fill(s, &|b| kind == 23 || b != b'-', plain);
            m.t.data(PART_DATA, &d);
            m.wire.extend_from_slice(&d);
            m.wire.extend_from_slice(b"\r\n--");
            m.wire.extend_from_slice(&b);
            m.wire.extend_from_slice(b"--");
            m.t.mark(BODY_FINISHED);
            (Plan::multipart(&b, &if kind == 23 { vec![Some(d.len())] } else { vec![] }), m)
        }
        _ => {
            let long = fill(s, &|_| true, plain);
            let short = g::any_text(s, 20);
            let (name, value) = if kind == 24 { (long, short) } else { (short, long) };
            g::encode(s, &name, b"=&;", &mut m.wire);
            m.wire.push(b'=');
            g::encode(s, &value, b"&;", &mut m.wire);
            g::pairs_t(&[g::Pair { name, value: Some(value) }], &mut m.t, false);
            m.t.mark(BODY_FINISHED);
            (Plan::url(m.wire.len()), m)
        }
    }
}

const NAMES: [&str; 26] = [
    "headers of a request", "headers of a response", "chunks", "extensions", "trailers", "parts", "parts with lengths", "headers of a part",
    "look-alikes", "pairs", "pairs", "bytes of method", "bytes of URL", "bytes of reason", "bytes of header name", "bytes of header value",
    "bytes of quoted header value", "bytes of folded header value", "bytes before a head", "bytes of extension name", "bytes of extension value",
    "bytes of chunk data", "bytes of part data", "bytes of part data by length", "bytes of URL-encoded name", "bytes of URL-encoded value",
];

/// Points at which to cut, few enough for a long input.
fn blocks(s: &mut Src, len: usize) -> Vec<usize> {
    let max = *s.pick(&[3usize, 40, 1500, 70_000]);
    let mut rng = Rng(s.u32() as u64);
    let mut v = vec![];
    let mut x = 0;
    while x < len {
        v.push(x);
        x += (rng.next() % (max as u64 + 1)) as usize;
    }
    v
}

fn difference<X: PartialEq + std::fmt::Debug>(a: &[X], b: &[X]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let around = |v: &[X]| format!("{:x?}", &v[i.saturating_sub(12)..v.len().min(i + 24)]);
    format!("element {} of {} and {}: {} against {}", i, a.len(), b.len(), around(a), around(b))
}

fn pause_of(k: u64, s: &mut Src) -> Pause {
    match k {
        0 => Pause::Never,
        1 => Pause::Random(Rng(s.u32() as u64), 30),
        _ => Pause::Always,
    }
}

/// n things in one element: as built, in one slice, in blocks, byte by byte, with pauses.
fn one(kind: usize, n: usize, pauses: bool, s: &mut Src, st: &mut Stats) -> Check {
    let (plan, m) = many(kind, n, s);
    let mut all = m.wire.clone();
    if kind != 9 || s.chance(128) {
        all.extend_from_slice(b"\r\n\r\nGET / HTTP/1.1\r\n");
    }
    st.class(NAMES[kind]);
    st.nontrivial(true, &m.wire[..m.wire.len().min(4096)]);
    for k in 0..4 {
        let cuts = match k {
            0 => vec![],
            1 | 2 => blocks(s, all.len()),
            _ => (0..all.len()).collect(),
        };
        let pause = pause_of(if pauses { k.max(1).min(2) } else { (k == 2) as u64 }, s);
        let mut rec = h1::Rec::new(&plan.parts, pause);
        let out = h1::run_with(&plan, &mut rec, &slices(&all, &cuts), false);
        st.runs += 1;
        let at = format!(
            "{} {} in {} slices, {} pauses; {} starts with {}", n, NAMES[kind], cuts.len() + 1, out.pauses, plan_of(&plan), show(&m.wire[..m.wire.len().min(600)])
        );
        st.sample(|| at.clone());
        ensure!(out.t == m.t.t, "decoded and expected differ at {}\n {}", difference(&out.t, &m.t.t), at);
        ensure!(
            out.end == h1::End::Finished && out.taken == m.wire.len() && out.count == m.wire.len(),
            "{:?} after {} (byte_count {}) of {} bytes\n {}", out.end, out.taken, out.count, m.wire.len(), at
        );
    }
    Ok(())
}

fn plan_of(p: &Plan) -> String {
    let mut p = p.clone();
    p.parts.truncate(20);
    p.show()
}

const ROUNDS: u64 = 6;
const HEADS: [usize; 10] = [0, 1, 11, 12, 13, 14, 15, 16, 17, 18];
const BODIES: [usize; 15] = [2, 3, 4, 5, 6, 7, 8, 9, 19, 20, 21, 22, 23, 24, 25];
const ALL: [usize; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];

fn kinds(list: &[usize], pauses: bool, i: u64, st: &mut Stats) -> Check {
    let kind = list[(i % list.len() as u64) as usize];
    let i = i / list.len() as u64;
    let mut s = src(kind as u64, i);
    one(kind, pick_count(i), pauses, &mut s, st)
}

fn c01(i: u64, st: &mut Stats) -> Check {
    kinds(&[0, 11, 12, 14, 15, 18], false, i, st)
}
fn c02(i: u64, st: &mut Stats) -> Check {
    kinds(&[1, 13], false, i, st)
}
fn c03(i: u64, st: &mut Stats) -> Check {
    kinds(&[0, 4, 7, 14, 15, 16, 17], false, i, st)
}
fn c06(i: u64, st: &mut Stats) -> Check {
    kinds(&[2, 3, 4, 19, 20, 21], false, i, st)
}
fn c07(i: u64, st: &mut Stats) -> Check {
    kinds(&[5, 6, 7, 8, 22, 23], false, i, st)
}
fn c08(i: u64, st: &mut Stats) -> Check {
    kinds(&[9, 24, 25], false, i, st)
}
fn c11(i: u64, st: &mut Stats) -> Check {
    kinds(&ALL, true, i, st)
}

/// A change far behind the beginning: every partition against one slice.
fn broken(heads: bool, i: u64, st: &mut Stats) -> Check {
    let list: &[usize] = if heads { &HEADS } else { &BODIES };
    let kind = list[(i % list.len() as u64) as usize];
    let i = i / list.len() as u64;
    let mut s = src(100 + kind as u64, i);
    let n = pick_count(i);
    let (plan, m) = many(kind, n, &mut s);
    let mut wire = m.wire;
    let from = wire.len() - wire.len() / 8;
    let mut tail = wire.split_off(from);
    if i % 4 > 0 {
        for _ in 0..s.range(1, 3) {
            g::mutate(&mut s, &mut tail);
        }
    }
    wire.extend_from_slice(&tail);
    let whole = h1::run(&plan, &[&wire]).norm();
    st.runs += 1;
    st.nontrivial(true, &tail);
    for k in 0..3 {
        let cuts = if k == 0 { (0..wire.len()).collect() } else { blocks(&mut s, wire.len()) };
        let pause = pause_of((k == 2) as u64, &mut s);
        let out = h1::run_with(&plan, &mut h1::Rec::new(&plan.parts, pause), &slices(&wire, &cuts), false).norm();
        st.runs += 1;
        let at = format!("{} {}, changed near the end to {}, in {} slices; {}", n, NAMES[kind], show(&tail[..tail.len().min(400)]), cuts.len() + 1, plan_of(&plan));
        let same = match (&out.end, &whole.end) {
            (&h1::End::Err(a, x), &h1::End::Err(b, y)) => a == b && (!heads || x == y),
            (a, b) => a == b && out.count == whole.count,
        };
        ensure!(same, "{:?} after {} bytes, in one slice {:?} after {}\n {}", out.end, out.count, whole.end, whole.count, at);
        ensure!(out.t == whole.t, "pieces and one slice differ at {}\n {}", difference(&out.t, &whole.t), at);
    }
    Ok(())
}

fn c04(i: u64, st: &mut Stats) -> Check {
    broken(true, i, st)
}
fn c05(i: u64, st: &mut Stats) -> Check {
    broken(false, i, st)
}

// ------------------------------------------------------------------------------- many elements

fn pool(s: &mut Src, st: &mut Stats, broken: bool) -> Vec<(Plan, Vec<u8>, h1::Out)> {
    (0..60)
        .map(|k| {
            let (mut plan, wire) = h1p::any_element(s, st, broken && k % 3 == 0);
            plan.fresh = false;
            let out = h1::run(&plan, &[&wire]);
            (plan, wire, out)
        })
        .collect()
}

/// Thousands of messages on one connection; each must decode as it does alone.
fn c14(i: u64, st: &mut Stats) -> Check {
    let mut s = src(14, i);
    let pool: Vec<_> = pool(&mut s, st, false).into_iter().filter(|p| p.2.end == h1::End::Finished && p.2.taken == p.1.len() && !p.1.is_empty()).collect();
    let n = [3000, 20_000, 70_000][(i % 3) as usize];
    let mut rng = Rng(s.u32() as u64);
    let mut p: http1::Parser<h1::Rec> = http1::Parser::new();
    let list: Vec<usize> = (0..n).map(|_| (rng.next() % pool.len() as u64) as usize).collect();
    let mut stream = vec![];
    let mut ends = vec![];
    for &k in &list {
        stream.extend_from_slice(&pool[k].1);
        ends.push(stream.len());
    }
    st.nontrivial(true, &stream[..stream.len().min(4096)]);
    st.runs += 1;
    let cuts = if i % 2 == 0 { vec![] } else { blocks(&mut s, stream.len()) };
    let pauses = i % 3 == 1;
    let rec_of = |k: usize| h1::Rec::new(&pool[k].0.parts, if pauses { Pause::Random(Rng(k as u64), 20) } else { Pause::Never });
    let (mut at, mut pos) = (0, 0);
    pool[list[0]].0.init(&mut p);
    let mut rec = rec_of(list[0]);
    let mut idle = 0;
    let mut rest = slices(&stream, &cuts);
    rest.push(b"");
    'all: for mut sl in rest {
        loop {
            let r = p.resume(&mut rec, sl);
            rec.paused = false;
            match r {
                Ok(Success::Eos(n)) => {
                    pos += n;
                    ensure!(n == sl.len() && p.byte_count() == pos, "element {} of {}: Eos({}) of {}, byte_count {} instead of {}", at, n, n, sl.len(), p.byte_count(), pos);
                    break;
                }
                Ok(Success::Callback(n)) => {
                    pos += n;
                    idle = if n == 0 { idle + 1 } else { 0 };
                    ensure!(idle < 1000 && n <= sl.len(), "element {}: no progress", at);
                    sl = &sl[n..];
                }
                Ok(Success::Finished(n)) => {
                    pos += n;
                    let (plan, wire, out) = &pool[list[at]];
                    ensure!(
                        n <= sl.len() && pos == ends[at] && p.byte_count() == pos && rec.t.t == out.t,
                        "element {} of {} ended at {} instead of {}, byte_count {}\n decoded {}\n expected {}\n {}",
                        at, list.len(), pos, ends[at], p.byte_count(), h1::show_t(&rec.t.t), h1::show_t(&out.t), h1p::describe(plan, wire, &[])
                    );
                    sl = &sl[n..];
                    at += 1;
                    if at == list.len() {
                        break 'all;
                    }
                    pool[list[at]].0.init(&mut p);
                    rec = rec_of(list[at]);
                }
                Err(e) => return Err(format!("element {} of {} failed with {:?}", at, list.len(), e)),
                #[allow(unreachable_patterns)]
                _ => panic!("an outcome that is not documented"),
            }
        }
    }
    ensure!(at == list.len(), "only {} of {} elements were decoded", at, list.len());
    Ok(())
}

/// One parser that is re-initialised tens of thousands of times, mostly in the middle of something.
fn c15(i: u64, st: &mut Stats) -> Check {
    let mut s = src(15, i);
    let pool = pool(&mut s, st, true);
    let mut rng = Rng(s.u32() as u64);
    let mut p: http1::Parser<h1::Rec> = http1::Parser::new();
    let n = [3000, 20_000, 70_000][(i % 3) as usize];
    st.nontrivial(true, &i.to_le_bytes());
    st.runs += 1;
    for at in 0..n {
        let (plan, wire, out) = &pool[(rng.next() % 60) as usize];
        plan.init(&mut p);
        let part = if at % 16 < 15 { (rng.next() % (wire.len() as u64 + 1)) as usize } else { wire.len() };
        let cut = (rng.next() % (part as u64 + 1)) as usize;
        let mut rec = h1::Rec::new(&plan.parts, Pause::Never);
        let o = h1::run_on(&mut p, &mut rec, &[&wire[..cut], &wire[cut..part]], false);
        if part == wire.len() {
            let (o, out) = (o.norm(), h1::run(plan, &[&wire[..cut], &wire[cut..]]).norm());
            ensure!(
                o.end == out.end && o.t == out.t && o.count == out.count && o.taken == out.taken,
                "element {} on one parser: {}\n on a new one: {}\n {}", at, o.show(), out.show(), h1p::describe(plan, wire, &[cut])
            );
        }
        let _ = out;
    }
    Ok(())
}

/// Hundreds of parsers at the same time.
fn c18(i: u64, st: &mut Stats) -> Check {
    let mut s = src(18, i);
    let pool = pool(&mut s, st, true);
    let streams: Vec<Vec<u8>> = (0..40).map(|_| h2p::any_stream(&mut s, st)).collect();
    let n = [300usize, 3000][(i % 2) as usize];
    let mut rng = Rng(s.u32() as u64);
    struct A<'a> {
        p: http1::Parser<'a, h1::Rec>,
        r: h1::Rec,
        k: usize,
        left: &'a [u8],
        end: Option<h1::End>,
        taken: usize,
    }
    struct B<'a> {
        p: http2::Parser<'a, h2::Rec>,
        r: h2::Rec,
        k: usize,
        left: &'a [u8],
        end: Option<h2::End>,
        taken: usize,
    }
    let mut a: Vec<A> = (0..n)
        .map(|_| {
            let k = (rng.next() % 60) as usize;
            let mut p = http1::Parser::new();
            pool[k].0.init(&mut p);
            A { p, r: h1::Rec::new(&pool[k].0.parts, Pause::Never), k, left: &pool[k].1, end: None, taken: 0 }
        })
        .collect();
    let mut b: Vec<B> = (0..n)
        .map(|_| {
            let k = (rng.next() % 40) as usize;
            B { p: http2::Parser::new(), r: h2::Rec::new(h2::Pause::Never), k, left: &streams[k], end: None, taken: 0 }
        })
        .collect();
    st.runs += 2 * n as u64;
    st.nontrivial(true, &i.to_le_bytes());
    for _ in 0..n * 40 {
        let j = (rng.next() % n as u64) as usize;
        let x = &mut a[j];
        if x.end.is_none() {
            let l = ((rng.next() % 30) as usize).min(x.left.len());
            let l = if rng.next() % 30 == 0 { x.left.len() } else { l };
            let e = h1::feed(&mut x.p, &mut x.r, &[&x.left[..l]], false, &mut |_| false, &mut x.taken, &mut |_, _| {});
            x.left = &x.left[l..];
            if e != h1::End::More {
                x.end = Some(e);
            }
        }
        let j = (rng.next() % n as u64) as usize;
        let x = &mut b[j];
        if x.end.is_none() {
            let l = ((rng.next() % 30) as usize).min(x.left.len());
            let l = if rng.next() % 30 == 0 { x.left.len() } else { l };
            let e = h2::feed(&mut x.p, &mut x.r, &[&x.left[..l]], false, &mut |_| false, &mut x.taken, &mut |_, _| {});
            x.left = &x.left[l..];
            if e != h2::End::More {
                x.end = Some(e);
            }
        }
    }
    for (j, x) in a.iter_mut().enumerate() {
        let (plan, wire, _) = &pool[x.k];
        let left = x.left;
        if x.end.is_none() {
            x.end = Some(h1::feed(&mut x.p, &mut x.r, &[left, b""], true, &mut |_| false, &mut x.taken, &mut |_, _| {}));
        }
        let mut out = h1::run(plan, &[wire]);
        let end = x.end.take().unwrap();
        let same_error = match (&end, &out.end) {
            (&h1::End::Err(k, _), &h1::End::Err(l, _)) => k == l,
            _ => false,
        };
        h1::cut_interrupted(&mut x.r.t.t, &end);
        h1::cut_interrupted(&mut out.t, &out.end.clone());
        ensure!(
            (same_error || end == out.end && x.taken == out.taken) && x.r.t.t == out.t,
            "parser {} of {}: {:?} after {}: {}\n alone: {}\n {}", j, n, end, x.taken, h1::show_t(&x.r.t.t), out.show(), h1p::describe(plan, wire, &[])
        );
    }
    for (j, x) in b.iter_mut().enumerate() {
        let left = x.left;
        if x.end.is_none() {
            x.end = Some(h2::feed(&mut x.p, &mut x.r, &[left, b""], true, &mut |_| false, &mut x.taken, &mut |_, _| {}));
        }
        let out = h2::run(&[&streams[x.k]]);
        let end = x.end.take().unwrap();
        ensure!(
            end == out.end && x.r.t.t == out.t,
            "HTTP/2 parser {} of {}: {:?}: {}\n alone: {:?} {}\n {}", j, n, end, h2::show_t(&x.r.t.t), out.end, h2::show_t(&out.t), h2p::describe(&streams[x.k], &[])
        );
    }
    Ok(())
}

/// Tens of thousands of calls on a parser that has failed or finished.
fn c17(i: u64, st: &mut Stats) -> Check {
    let mut s = src(17, i);
    st.runs += 1;
    st.nontrivial(true, &i.to_le_bytes());
    let n = 70_000u32;
    let mut rng = Rng(s.u32() as u64);
    let junk = s.bulk(5000);
    let mut any = |w: &mut usize| {
        let a = (rng.next() % 4900) as usize;
        let l = [0, 1, 2, 9, 40, 100][(rng.next() % 6) as usize];
        *w = l;
        &junk[a..a + l]
    };
    if i % 3 == 0 {
        let mut p: http2::Parser<h2::Rec> = http2::Parser::new();
        let mut r = h2::Rec::new(h2::Pause::Never);
        let e = p.resume(&mut r, &[0, 0, 1, 3, 0, 0, 0, 0, 1, 0]);
        if e.is_ok() {
            return Ok(());
        }
        let calls = r.callbacks;
        for k in 0..n {
            let mut l = 0;
            let e = p.resume(&mut r, any(&mut l));
            ensure!(
                e.is_err() && p.state() == http2::ParserState::Dead && r.callbacks == calls && p.byte_count() <= 10,
                "call {} after an error: {:?}, byte_count {}, {} callbacks", k, e, p.byte_count(), r.callbacks - calls
            );
        }
        return Ok(());
    }
    let mut p: http1::Parser<h1::Rec> = http1::Parser::new();
    let mut r = h1::Rec::new(&[], Pause::Never);
    let wire: &[u8] = if i % 3 == 1 { b"GET / HTTP/1.1\r\n\r\n" } else { b"GET / HTTP/1.1\r\n\x01\r\n" };
    let first = p.resume(&mut r, wire);
    let count = p.byte_count();
    let calls = r.callbacks;
    for k in 0..n {
        let mut l = 0;
        let e = p.resume(&mut r, any(&mut l));
        let ok = match (&first, &e) {
            (Ok(_), Ok(Success::Finished(0))) => p.state() == http1::ParserState::Finished,
            (Err(_), Err(http1::ParserError::Dead)) => p.state() == http1::ParserState::Dead,
            _ => false,
        };
        ensure!(
            ok && r.callbacks == calls && p.byte_count() == count,
            "call {} with {} bytes after {:?}: {:?}, state {:?}, byte_count {} instead of {}", k, l, first, e, p.state(), p.byte_count(), count
        );
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- HTTP/2

fn many_frames(s: &mut Src, n: usize, types: Option<u8>) -> h2::Stream {
    let pool: Vec<h2::Stream> = (0..60)
        .map(|_| {
            let mut o = h2::Stream::default();
            match types {
                None => h2::frame(s, &mut o, false),
                Some(t) => {
                    let f = s.byte();
                    h2::frame_of(s, &mut o, t, f, false)
                }
            }
            o
        })
        .filter(|o| o.wire.len() < 3000)
        .collect();
    let mut out = h2::Stream::default();
    let mut rng = Rng(s.u32() as u64);
    for _ in 0..n {
        let p = &pool[(rng.next() % pool.len() as u64) as usize];
        out.wire.extend_from_slice(&p.wire);
        out.t.t.extend_from_slice(&p.t.t);
    }
    h2::sentinel(&mut out);
    out
}

fn frames(i: u64, salt: u64, pauses: bool, st: &mut Stats) -> Check {
    let mut s = src(salt, i);
    let n = [1000, 17_000, 66_000][(i % 3) as usize];
    let m = many_frames(&mut s, n, if i % 2 == 0 { None } else { Some((i / 2 % 11) as u8) });
    st.nontrivial(true, &m.wire[..m.wire.len().min(4096)]);
    for k in 0..4 {
        let cuts = match k {
            0 => vec![],
            1 | 2 => blocks(&mut s, m.wire.len()),
            _ => (0..m.wire.len()).collect(),
        };
        let pause = match if pauses { k.max(1).min(2) } else { (k == 2) as u64 } {
            0 => h2::Pause::Never,
            1 => h2::Pause::Random(Rng(s.u32() as u64), 30),
            _ => h2::Pause::Always,
        };
        let out = h2::run_with(&mut h2::Rec::new(pause), &slices(&m.wire, &cuts), false);
        st.runs += 1;
        let at = format!("{} frames in {} slices, {} pauses", n, cuts.len() + 1, out.pauses);
        st.sample(|| at.clone());
        ensure!(out.t == m.t.t, "decoded and expected differ at {}\n {}", difference(&out.t, &m.t.t), at);
        ensure!(
            out.end == h2::End::More && out.taken == m.wire.len() && out.count == m.wire.len(),
            "{:?} after {} (byte_count {}) of {} bytes\n {}", out.end, out.taken, out.count, m.wire.len(), at
        );
    }
    Ok(())
}

fn c20(i: u64, st: &mut Stats) -> Check {
    frames(i, 20, false, st)
}
fn c22(i: u64, st: &mut Stats) -> Check {
    frames(i, 22, true, st)
}
fn c24(i: u64, st: &mut Stats) -> Check {
    // data, headers and promises only: the padded ones
    let mut s = src(24, i);
    let n = [1000, 17_000, 66_000][(i % 3) as usize];
    let m = many_frames(&mut s, n, Some([0, 1, 5][(i / 3 % 3) as usize]));
    st.nontrivial(true, &m.wire[..m.wire.len().min(4096)]);
    for cuts in [vec![], blocks(&mut s, m.wire.len()), (0..m.wire.len()).collect()] {
        let out = h2::run(&slices(&m.wire, &cuts));
        st.runs += 1;
        ensure!(
            out.t == m.t.t && out.end == h2::End::More && out.count == m.wire.len(),
            "{:?} after {} of {} bytes, {} frames in {} slices; differs at {}", out.end, out.count, m.wire.len(), n, cuts.len() + 1, difference(&out.t, &m.t.t)
        );
    }
    Ok(())
}

/// A change far behind the beginning of a long stream.
fn c21(i: u64, st: &mut Stats) -> Check {
    let mut s = src(21, i);
    let n = [1000, 17_000, 66_000][(i % 3) as usize];
    let mut wire = many_frames(&mut s, n, None).wire;
    let from = wire.len() - wire.len() / 8;
    let k = from + s.below(wire.len() - from);
    wire[k] ^= 1 << s.below(8);
    let whole = h2::run(&[&wire]);
    st.runs += 1;
    st.nontrivial(true, &wire[from..]);
    for cuts in [blocks(&mut s, wire.len()), blocks(&mut s, wire.len()), (0..wire.len()).collect()] {
        let out = h2::run(&slices(&wire, &cuts));
        st.runs += 1;
        ensure!(
            out.t == whole.t && out.end == whole.end && out.count == whole.count,
            "{} frames in {} slices: {:?} after {}, in one slice {:?} after {}; differs at {}", n, cuts.len() + 1, out.end, out.count, whole.end, whole.count,
            difference(&out.t, &whole.t)
        );
    }
    Ok(())
}

// ------------------------------------------------------------------------------- beyond 32 bits

/// Counts what it gets and looks at none of it.
#[derive(Default)]
struct Count {
    length: Option<usize>,
    data: u64,
    chunks: Vec<usize>,
    ends: u32,
    frames: u64,
    pause: u64,
    calls: u64,
}

impl Count {
    fn go(&mut self) -> bool {
        self.calls += 1;
        self.pause == 0 || self.calls % self.pause != 0
    }
}

impl http1::HttpHandler for Count {
    fn content_length(&mut self) -> Option<usize> {
        self.length
    }
    fn on_chunk_length(&mut self, n: usize) -> bool {
        self.chunks.push(n);
        self.go()
    }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool {
        self.data += d.len() as u64;
        self.go()
    }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool {
        self.data += d.len() as u64;
        self.go()
    }
    fn on_body_finished(&mut self) -> bool {
        self.ends += 1;
        self.go()
    }
}

impl http2::HttpHandler for Count {
    fn on_frame_format(&mut self, _: u32, _: u8, _: u8, _: u32) -> bool {
        self.frames += 1;
        self.go()
    }
    fn on_data(&mut self, d: &[u8], fin: bool) -> bool {
        self.data += d.len() as u64;
        self.ends += fin as u32;
        self.go()
    }
    fn on_headers_fragment(&mut self, d: &[u8], fin: bool) -> bool {
        self.data += d.len() as u64;
        self.ends += fin as u32;
        self.go()
    }
    fn on_unsupported(&mut self, d: &[u8], fin: bool) -> bool {
        self.data += d.len() as u64;
        self.ends += fin as u32;
        self.go()
    }
}

enum Seg {
    Bytes(Vec<u8>),
    Zeros(u64),
}

/// The slices of an input that is never in memory as a whole. The zeros are pages nobody touches.
fn pieces(segs: &[Seg], s: &mut Src, f: &mut dyn FnMut(&[u8]) -> Check) -> Check {
    let zeros = vec![0u8; 1 << 27];
    let mut edge: Vec<u8> = vec![];
    for seg in segs {
        match *seg {
            Seg::Bytes(ref b) => edge.extend_from_slice(b),
            Seg::Zeros(n) => {
                // some of them together with what comes before and after
                let a = (s.below(300) as u64).min(n);
                edge.extend(std::iter::repeat(0).take(a as usize));
                f(&edge)?;
                edge.clear();
                let b = (s.below(300) as u64).min(n - a);
                let mut left = n - a - b;
                while left > 0 {
                    let l = left.min((1 << 27) - s.below(1 << 20) as u64);
                    f(&zeros[..l as usize])?;
                    left -= l;
                }
                edge.extend(std::iter::repeat(0).take(b as usize));
            }
        }
    }
    f(&edge)
}

fn c13(i: u64, st: &mut Stats) -> Check {
    let mut s = src(13, i);
    let pause = [0, 3, 50][(i / 2 % 3) as usize];
    let mut h = Count { pause, ..Count::default() };
    let mut p: http1::Parser<Count> = http1::Parser::new();
    let big = (1u64 << 32) - 1;
    // the count goes on from what the parser was used for before
    let mut q = 0u64;
    for _ in 0..s.below(3) {
        p.init_url_encoded();
        p.set_length(9);
        match p.resume(&mut Count::default(), b"a=b&c=d%4") {
            Ok(Success::Eos(n)) => q += n as u64,
            Ok(Success::Finished(n)) => q += n as u64,
            Err(_) => q = p.byte_count() as u64,
            other => return Err(format!("{:?}", other)),
        }
    }
    let started = q;
    let (segs, total) = if i % 2 == 0 {
        p.init_chunked();
        let mut v = vec![];
        for n in [3, big, big - s.below(70_000) as u64, 1] {
            v.push(Seg::Bytes(format!("{:x}\r\n", n).into_bytes()));
            v.push(Seg::Zeros(n));
            v.push(Seg::Bytes(b"\r\n".to_vec()));
        }
        v.push(Seg::Bytes(b"0\r\nA: b\r\n\r\n".to_vec()));
        (v, None)
    } else {
        p.init_multipart();
        p.set_boundary(b"Bound");
        let n = big + 1 + s.u32() as u64;
        h.length = Some(n as usize);
        (
            vec![
                Seg::Bytes(b"--Bound\r\nA: b\r\n\r\n".to_vec()),
                Seg::Zeros(n),
                Seg::Bytes(b"\r\n--Bound\r\n\r\n".to_vec()),
                Seg::Zeros(n),
                Seg::Bytes(b"\r\n--Bound--".to_vec()),
            ],
            Some(2 * n),
        )
    };
    let sizes: Vec<u64> = segs.iter().filter_map(|s| if let Seg::Zeros(n) = *s { Some(n) } else { None }).collect();
    let all: u64 = segs.iter().map(|s| match *s { Seg::Zeros(n) => n, Seg::Bytes(ref b) => b.len() as u64 }).sum();
    let mut finished = false;
    pieces(&segs, &mut s, &mut |mut sl| {
        loop {
            let r = p.resume(&mut h, sl);
            match r {
                Ok(Success::Eos(n)) => {
                    ensure!(n == sl.len(), "Eos({}) of {}", n, sl.len());
                    q += n as u64;
                }
                Ok(Success::Callback(n)) => {
                    ensure!(n <= sl.len(), "Callback({}) of {}", n, sl.len());
                    q += n as u64;
                    ensure!(p.byte_count() as u64 == q, "byte_count {} after {} bytes", p.byte_count(), q);
                    sl = &sl[n..];
                    continue;
                }
                Ok(Success::Finished(n)) => {
                    ensure!(n == sl.len(), "Finished({}) of {}", n, sl.len());
                    q += n as u64;
                    finished = true;
                }
                Err(e) => return Err(format!("{:?} after {} bytes", e, q)),
                #[allow(unreachable_patterns)]
                _ => panic!("an outcome that is not documented"),
            }
            ensure!(p.byte_count() as u64 == q, "byte_count {} after {} bytes", p.byte_count(), q);
            return Ok(());
        }
    })?;
    st.runs += 1;
    st.class("more than 2^32 bytes");
    st.nontrivial(true, &i.to_le_bytes());
    ensure!(finished && q == started + all, "finished: {} after {} of {} bytes", finished, q - started, all);
    ensure!(h.ends == 1 && h.data == sizes.iter().sum::<u64>(), "{} bytes of data instead of {:?}, {} ends", h.data, sizes, h.ends);
    if total.is_none() {
        ensure!(h.chunks.iter().map(|&n| n as u64).filter(|&n| n > 0).collect::<Vec<_>>() == sizes, "chunks {:?} instead of {:?}", h.chunks, sizes);
    }
    // and another element
    p.init_head();
    let head = b"GET / HTTP/1.1\r\nA: b\r\n\r\n";
    let mut left = &head[..];
    loop {
        match p.resume(&mut h, left) {
            Ok(Success::Callback(n)) => left = &left[n..],
            Ok(Success::Finished(n)) if n == left.len() => break,
            other => return Err(format!("a head after {} bytes: {:?}", q, other)),
        }
    }
    ensure!(p.byte_count() as u64 == q + head.len() as u64, "byte_count {} after {} bytes", p.byte_count(), q + head.len() as u64);
    Ok(())
}

/// More than 2^32 bytes of frames, then a reset; then tens of thousands of resets.
fn c26(i: u64, st: &mut Stats) -> Check {
    let mut s = src(26, i);
    st.runs += 1;
    st.nontrivial(true, &i.to_le_bytes());
    if i % 2 == 0 {
        let mut p: http2::Parser<Count> = http2::Parser::new();
        let mut h = Count { pause: [0, 7, 1][(i / 2 % 3) as usize], ..Count::default() };
        let mut segs = vec![];
        let (mut all, mut data, n) = (0u64, 0u64, 300u64);
        for k in 0..n {
            let len = (1u64 << 24) - 1 - if k % 3 == 0 { 0 } else { s.below(70_000) as u64 };
            segs.push(Seg::Bytes(h2::head(len as usize, [0, 1, 77][(k % 3) as usize], 0, k as u32)));
            segs.push(Seg::Zeros(len));
            all += len + 9;
            data += len;
        }
        let mut q = 0u64;
        pieces(&segs, &mut s, &mut |mut sl| {
            loop {
                match p.resume(&mut h, sl) {
                    Ok(Success::Eos(n)) => {
                        ensure!(n == sl.len(), "Eos({}) of {}", n, sl.len());
                        q += n as u64;
                        ensure!(p.byte_count() as u64 == q, "byte_count {} after {} bytes", p.byte_count(), q);
                        return Ok(());
                    }
                    Ok(Success::Callback(n)) if n <= sl.len() => {
                        q += n as u64;
                        ensure!(p.byte_count() as u64 == q, "byte_count {} after {} bytes", p.byte_count(), q);
                        sl = &sl[n..];
                    }
                    other => return Err(format!("{:?} after {} bytes", other, q)),
                }
            }
        })?;
        ensure!(
            q == all && h.data == data && h.frames == n && h.ends as u64 == n,
            "{} of {} bytes, {} of {} bytes of data, {} frames and {} ends instead of {}", q, all, h.data, data, h.frames, h.ends, n
        );
        p.reset();
        ensure!(p.byte_count() == 0, "byte_count {} after reset", p.byte_count());
        return Ok(());
    }
    let pool: Vec<Vec<u8>> = (0..60).map(|_| h2p::any_stream(&mut s, st)).filter(|w| w.len() < 3000).collect();
    let mut rng = Rng(s.u32() as u64);
    let mut p: http2::Parser<h2::Rec> = http2::Parser::new();
    for at in 0..70_000 {
        let wire = &pool[(rng.next() % pool.len() as u64) as usize];
        let part = if at % 16 < 15 { (rng.next() % (wire.len() as u64 + 1)) as usize } else { wire.len() };
        let cut = (rng.next() % (part as u64 + 1)) as usize;
        let mut rec = h2::Rec::new(h2::Pause::Never);
        let sl = [&wire[..cut], &wire[cut..part]];
        let o = h2::run_on(&mut p, &mut rec, &sl, false).0;
        if part == wire.len() {
            let out = h2::run(&sl);
            ensure!(
                o.end == out.end && o.t == out.t && o.count == out.count && p.byte_count() == out.count,
                "stream {} on one parser: {:?} after {}: {}\n on a new one: {:?} after {}: {}\n {}",
                at, o.end, o.count, h2::show_t(&o.t), out.end, out.count, h2::show_t(&out.t), h2p::describe(wire, &[cut])
            );
        }
        p.reset();
        ensure!(p.byte_count() == 0, "byte_count {} after reset {}", p.byte_count(), at);
    }
    Ok(())
}

// -------------------------------------------------------------------------------------- utilities

/// Many encoded items in one text, against the models of the utilities.
fn utilities(i: u64, salt: u64, st: &mut Stats) -> Check {
    let mut s = src(salt, i);
    let n = pick_count(i);
    let mut rng = Rng(s.u32() as u64);
    let mut t = vec![];
    match salt {
        30 => {
            let pool: Vec<Vec<u8>> = (0..40)
                .map(|_| {
                    let x = g::utf8_text(&mut s, 40);
                    let mut w = vec![];
                    g::encode(&mut s, x.as_bytes(), b"", &mut w);
                    w
                })
                .collect();
            for _ in 0..n {
                t.extend_from_slice(&pool[(rng.next() % 40) as usize]);
            }
            if i % 4 == 3 {
                t.extend_from_slice(b"%4");
            }
            st.nontrivial(true, &t[..t.len().min(4096)]);
            utilp::check_decode(&t, st)
        }
        31 => {
            let pool: Vec<Vec<u8>> = (0..40).map(|_| utilp::query_text(&mut s, st).0).collect();
            for _ in 0..n {
                t.extend_from_slice(&pool[(rng.next() % 40) as usize]);
                t.push(b"&;"[(rng.next() % 2) as usize]);
            }
            if i % 4 == 3 {
                t.push(0x80);
            }
            st.nontrivial(true, &t[..t.len().min(4096)]);
            utilp::check_query(&t, st)
        }
        _ => {
            let delimiter = b";,"[(i % 2) as usize];
            let pool: Vec<Vec<u8>> = (0..400)
                .map(|_| utilp::field_text(&mut s, st))
                .filter(|x| x.1 == delimiter)
                .map(|x| x.0)
                .take(40)
                .collect();
            for _ in 0..n {
                t.extend_from_slice(&pool[(rng.next() % pool.len() as u64) as usize]);
                t.push(delimiter);
            }
            if i % 4 == 3 {
                t.push(0x80);
            }
            st.nontrivial(true, &t[..t.len().min(4096)]);
            utilp::check_field(&t, delimiter, i % 3 == 0, st)
        }
    }
}

fn c30(i: u64, st: &mut Stats) -> Check {
    utilities(i, 30, st)
}
fn c31(i: u64, st: &mut Stats) -> Check {
    utilities(i, 31, st)
}
fn c32(i: u64, st: &mut Stats) -> Check {
    utilities(i, 32, st)
}
fn c35(i: u64, st: &mut Stats) -> Check {
    let mut s = src(35, i);
    let (_, m) = many(10, pick_count(i), &mut s);
    let cuts = blocks(&mut s, m.wire.len());
    st.nontrivial(true, &m.wire[..m.wire.len().min(4096)]);
    utilp::agree(&m.wire, &cuts, st)
}

/// Adds the cases to the properties: after the enumerated ones they have.
pub fn register(v: &mut Vec<Prop>) {
    let list: [(&str, u64, fn(u64, &mut Stats) -> Check); 22] = [
        ("C01", 36, c01),
        ("C02", 12, c02),
        ("C03", 42, c03),
        ("C04", 60, c04),
        ("C05", 90, c05),
        ("C06", 36, c06),
        ("C07", 36, c07),
        ("C08", 18, c08),
        ("C11", 50, c11),
        ("C13", ROUNDS, c13),
        ("C14", ROUNDS, c14),
        ("C15", ROUNDS, c15),
        ("C17", ROUNDS, c17),
        ("C18", 4, c18),
        ("C20", 24, c20),
        ("C21", ROUNDS, c21),
        ("C22", 12, c22),
        ("C24", 9, c24),
        ("C26", ROUNDS, c26),
        ("C30", 8, c30),
        ("C31", 8, c31),
        ("C32", 8, c32),
    ];
    for (id, n, f) in list {
        let p = v.iter_mut().find(|p| p.id == id).unwrap();
        p.long = n;
        p.l = f;
    }
    let p = v.iter_mut().find(|p| p.id == "C35").unwrap();
    p.long = 8;
    p.l = c35;
}
