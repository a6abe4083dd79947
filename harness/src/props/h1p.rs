//! Properties of the HTTP/1 parser.

use super::{no_enum, Prop};
use crate::ensure;
use crate::h1::*;
use crate::h1gen::*;
use crate::h1model::Model;
use crate::mem;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Rng, Src};
use http_box::fsm::Success;
use http_box::http1::{Parser, ParserState};

fn all_cuts(n: usize) -> Vec<usize> {
    (0..=n).collect()
}

pub fn describe(plan: &Plan, wire: &[u8], cuts: &[usize]) -> String {
    let c = if cuts.len() > 40 { format!("{:?}... ({} cuts)", &cuts[..40], cuts.len()) } else { format!("{:?}", cuts) };
    format!("{}; input ({} bytes) {}; cut at {}", plan.show(), wire.len(), show(wire), c)
}

/// Feed `wire` plus bytes after it and expect exactly `want` and the end of the element after `wire`.
fn expect(plan: &Plan, wire: &[u8], after: &[u8], cuts: &[usize], want: &[u16], st: &mut Stats) -> Check {
    expect_with(plan, wire, after, cuts, want, Pause::Never, None, st)
}

/// The same with pauses, and on a parser that was used before.
fn expect_with(
    plan: &Plan, wire: &[u8], after: &[u8], cuts: &[usize], want: &[u16], pause: Pause, used: Option<&(Plan, Vec<u8>)>, st: &mut Stats,
) -> Check {
    let mut all = wire.to_vec();
    all.extend_from_slice(after);
    let sl = slices(&all, cuts);
    let log = || {
        let mut l = describe(plan, &all, cuts);
        if !matches!(pause, Pause::Never) {
            l.push_str(&format!("; {}", show_pause(&pause)));
        }
        if let Some(u) = used {
            l.push_str(&format!("; the parser was used before for: {}", describe(&u.0, &u.1, &[])));
        }
        l
    };
    let mut p: Parser<Rec> = Parser::new();
    let mut again = plan.clone();
    if let Some(u) = used {
        u.0.init(&mut p);
        let _ = run_on(&mut p, &mut Rec::new(&u.0.parts, Pause::Never), &[&u.1], false);
        again.fresh = false;
    }
    again.init(&mut p);
    let mut rec = Rec::new(&plan.parts, pause.clone());
    let out = run_on(&mut p, &mut rec, &sl, false);
    st.runs += 1;
    ensure!(
        out.end == End::Finished,
        "not finished: {}\n expected: {}\n {}", out.show(), show_t(want), log()
    );
    ensure!(
        out.t == want,
        "decoded {}\nexpected {}\n {}", show_t(&out.t), show_t(want), log()
    );
    ensure!(
        out.count == wire.len() && out.taken == wire.len(),
        "finished after {} (byte_count {}) bytes instead of {}\n {}",
        out.taken, out.count, wire.len(), log()
    );
    Ok(())
}

/// Something that leaves a parser in any state.
fn used(s: &mut Src) -> (Plan, Vec<u8>) {
    let (plan, w): (Plan, &[u8]) = match s.below(6) {
        0 => (Plan::head(false), b"PATCH /a?b HTTP/12.345\r\nAccept: \"x\\y\"\r\n z\r\n\r\n"),
        1 => (Plan::head(false), b"HTTP/123.45 987 Reason\r\nHost: a\r\n\r\n"),
        2 => (Plan::chunked(), b"fedcba9;Ext=\"v\\w\";b\r\nabc"),
        3 => (Plan::chunked(), b"1;a=b\r\nx\r\n0;c\r\nT: u\r\n\r\n"),
        4 => (Plan::multipart(b"another", &[None, Some(70000)]), b"--another\r\na: b\r\n\r\n\r\n--ano\r\n--another\r\n\r\nxyz"),
        _ => (Plan::url(70000), b"a%41=b+c&d;e=%f0"),
    };
    let l = if s.chance(64) { w.len() } else { s.range(1, w.len()) };
    let mut w = w[..l].to_vec();
    if s.chance(40) {
        w.push(0);
    }
    (plan, w)
}

/// With pauses or on a used parser, or both, in a random partition.
fn expect_history(s: &mut Src, st: &mut Stats, plan: &Plan, wire: &[u8], after: &[u8], want: &[u16]) -> Check {
    let pause = if s.chance(140) { pause_plan(s, 12 + want.len() / 8) } else { Pause::Never };
    let u = if s.chance(128) { Some(used(s)) } else { None };
    st.class_if(u.is_some(), "on a used parser");
    st.class_if(!matches!(pause, Pause::Never), "with pauses");
    let cuts = if s.chance(128) { vec![] } else { s.cuts(wire.len() + after.len()) };
    expect_with(plan, wire, after, &cuts, want, pause, u.as_ref(), st)
}

/// A complete element in one slice, in pieces, with and without bytes after it, and cut off.
fn expect_everywhere(s: &mut Src, st: &mut Stats, plan: &Plan, wire: &[u8], want: &[u16]) -> Check {
    let n = s.weighted(&[100, 40, 40]);
    let n = match n {
        0 => 0,
        1 => s.below(30),
        _ => 40,
    };
    let after = s.bulk(n);
    expect(plan, wire, &after, &[], want, st)?;
    expect(plan, wire, b"", &[], want, st)?;
    let cuts = s.cuts(wire.len() + after.len());
    expect(plan, wire, &after, &cuts, want, st)?;
    if s.chance(100) {
        expect_history(s, st, plan, wire, &after, want)?;
    }
    // without its last byte it is not finished
    let out = run(plan, &[&wire[..wire.len() - 1]]);
    st.runs += 1;
    ensure!(
        out.end == End::More && out.count == wire.len() - 1,
        "without its last byte: {}\n {}", out.show(), describe(plan, wire, &[])
    );
    Ok(())
}

fn c01(s: &mut Src, st: &mut Stats) -> Check {
    let fresh = s.chance(80);
    let mut wire = if fresh { vec![] } else { leading(s) };
    let lead = wire.len();
    let mut m = Msg::default();
    request_line(s, &mut m);
    let n = headers(s, &mut m);
    wire.extend_from_slice(&m.wire);
    st.class_if(n > 0, "with headers");
    st.class_if(lead > 0, "leading blank lines");
    st.class_if(wire.starts_with(b"H"), "method starts with H");
    st.nontrivial(true, &wire);
    st.sample(|| show(&wire));
    expect_everywhere(s, st, &Plan::head(fresh), &wire, &m.t.t)
}

fn c02(s: &mut Src, st: &mut Stats) -> Check {
    let fresh = s.chance(80);
    let mut wire = if fresh { vec![] } else { leading(s) };
    let m = if s.chance(60) {
        // detection: a method that shares a prefix with HTTP/
        st.class("look-alike request");
        let mut m = Msg::default();
        let meth: Vec<u8> = match s.below(4) {
            0 => b"HTTP"[..s.range(1, 4)].to_vec(),
            1 => {
                let mut v = b"HTTP"[..s.range(1, 4)].to_vec();
                let n = s.range(1, 6);
                v.extend((0..n).map(|_| b'A' + s.below(26) as u8));
                v
            }
            _ => {
                let mut v = b"HTTP"[..s.range(1, 4)].to_vec();
                v.push(b'A' + s.below(26) as u8);
                v
            }
        };
        m.wire.extend_from_slice(&meth);
        m.t.data(METHOD, &meth);
        let u = url(s);
        m.wire.push(b' ');
        m.wire.extend_from_slice(&u);
        m.wire.push(b' ');
        m.t.data(URL, &u);
        let mut v = vec![];
        version(s, &mut m, &mut v);
        m.wire.extend_from_slice(&v);
        m.wire.extend_from_slice(b"\r\n");
        m.t.mark(INITIAL_FINISHED);
        headers(s, &mut m);
        m
    } else {
        st.class("response");
        response(s)
    };
    wire.extend_from_slice(&m.wire);
    st.class_if(m.t.t.contains(&STATUS), "reason phrase");
    st.nontrivial(true, &wire);
    st.sample(|| show(&wire));
    expect_everywhere(s, st, &Plan::head(fresh), &wire, &m.t.t)
}

/// The places that take header fields: prefix, plan, transcript before and after.
fn header_context(s: &mut Src, m: &mut Msg) -> (Plan, Vec<u8>, &'static str) {
    match s.below(4) {
        0 => {
            m.wire.extend_from_slice(b"GET / HTTP/1.1\r\n");
            m.t.data(METHOD, b"GET");
            m.t.data(URL, b"/");
            m.t.version(1, 1);
            m.t.mark(INITIAL_FINISHED);
            (Plan::head(s.chance(128)), vec![], "request")
        }
        1 => {
            m.wire.extend_from_slice(b"HTTP/1.1 200 OK\r\n");
            m.t.version(1, 1);
            m.t.status_code(200);
            m.t.data(STATUS, b"OK");
            m.t.mark(INITIAL_FINISHED);
            (Plan::head(s.chance(128)), vec![], "response")
        }
        2 => {
            m.wire.extend_from_slice(b"--b\r\n");
            m.t.mark(PART_BEGIN);
            (Plan::multipart(b"b", &[]), b"x\r\n--b--".to_vec(), "part")
        }
        _ => {
            m.wire.extend_from_slice(b"0\r\n");
            m.t.mark(CHUNK_BEGIN);
            m.t.chunk_length(0);
            (Plan::chunked(), vec![], "trailer")
        }
    }
}

fn c03(s: &mut Src, st: &mut Stats) -> Check {
    let mut m = Msg::default();
    let (plan, tail, what) = header_context(s, &mut m);
    st.class(what);
    let n = s.range(1, 4);
    let mut other = m.wire.clone();
    for _ in 0..n {
        let before = m.wire.len();
        header(s, &mut m);
        // the same field with another capitalisation of its name
        let mut f = m.wire[before..].to_vec();
        let colon = f.iter().position(|&b| b == b':').unwrap();
        let mut rng = Rng(s.byte() as u64);
        let how = s.below(3);
        for b in f[..colon].iter_mut() {
            if b.is_ascii_alphabetic() && (how == 1 || how == 2 && rng.next() & 1 == 1) {
                b.make_ascii_uppercase();
            } else {
                b.make_ascii_lowercase();
            }
        }
        other.extend_from_slice(&f);
    }
    m.t.mark(HEADERS_FINISHED);
    if what == "part" {
        m.t.data(PART_DATA, b"x");
    }
    if what == "part" || what == "trailer" {
        m.t.mark(BODY_FINISHED);
    }
    for w in [&mut m.wire, &mut other] {
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&tail);
    }
    st.class_if(m.wire.windows(3).any(|w| w == b"\r\n " || w == b"\r\n\t"), "folded");
    st.class_if(m.wire.contains(&b'"'), "quoted");
    st.nontrivial(true, &m.wire);
    st.sample(|| show(&m.wire));
    expect_everywhere(s, st, &plan, &m.wire, &m.t.t)?;
    expect(&plan, &other, b"", &[], &m.t.t, st)?;
    let cuts = s.cuts(other.len());
    expect(&plan, &other, b"", &cuts, &m.t.t, st)
}

/// Every well-known name in three capitalisations with every number of bytes after it.
fn c03_enum(i: u64, st: &mut Stats) -> Check {
    let name = NAMES[(i / 3) as usize];
    let name: Vec<u8> = match i % 3 {
        0 => name.as_bytes().to_vec(),
        1 => name.to_ascii_lowercase().into_bytes(),
        _ => name.to_ascii_uppercase().into_bytes(),
    };
    for len in 0..40 {
        let mut m = Msg::default();
        m.wire.extend_from_slice(b"0\r\n");
        m.t.mark(CHUNK_BEGIN);
        m.t.chunk_length(0);
        m.wire.extend_from_slice(&name);
        m.wire.push(b':');
        m.wire.extend(std::iter::repeat(b'v').take(len));
        m.wire.extend_from_slice(b"\r\n\r\n");
        m.t.data(HEADER_NAME, &name.to_ascii_lowercase());
        m.t.data(HEADER_VALUE, &vec![b'v'; len]);
        m.t.mark(HEADERS_FINISHED);
        m.t.mark(BODY_FINISHED);
        expect(&Plan::chunked(), &m.wire, b"", &[], &m.t.t, st)?;
        for c in 0..m.wire.len() {
            expect(&Plan::chunked(), &m.wire, b"", &[c], &m.t.t, st)?;
        }
    }
    Ok(())
}

/// All the ways of cutting that are tried for one input, against the input in one slice.
fn fragmentation(s: &mut Src, st: &mut Stats, plan: &Plan, wire: &[u8], exact_error: bool) -> Check {
    let base = run(plan, &[wire]);
    st.runs += 1;
    if let End::Bad(ref m) = base.end {
        return Err(format!("{}\n {}", m, describe(plan, wire, &[])));
    }
    let base = base.norm();
    let same = |out: Out, cuts: &[usize]| -> Check {
        let out = out.norm();
        let e = if exact_error { out.end == base.end } else { out.end.class() == base.end.class() };
        ensure!(
            e,
            "one slice: {}\n in pieces: {}\n {}", base.show(), out.show(), describe(plan, wire, cuts)
        );
        ensure!(
            out.t == base.t,
            "one slice decodes {}\n in pieces {}\n {}", show_t(&base.t), show_t(&out.t), describe(plan, wire, cuts)
        );
        ensure!(
            !exact_error && matches!(base.end, End::Err(..)) || out.count == base.count,
            "one slice takes {} bytes, in pieces {}\n {}", base.count, out.count, describe(plan, wire, cuts)
        );
        Ok(())
    };
    // byte by byte, and what is decoded after each byte against the same bytes in one slice
    let cuts = all_cuts(wire.len());
    let sl = slices(wire, &cuts);
    let (lens, steps) = run_steps(plan, &sl);
    st.runs += 1;
    if wire.len() <= 400 {
        let n = lens.len();
        for k in 1..n.min(wire.len() + 1) {
            // slice k ends at byte k
            let (one, o) = run_steps(plan, &[&wire[..k]]);
            st.runs += 1;
            if o.end != End::More || one.is_empty() {
                break;
            }
            ensure!(
                one[0] == lens[k] && o.t[..] == steps.t[..lens[k]],
                "after {} bytes one slice has decoded {}\n and single bytes {}\n {}",
                k, show_t(&o.t), show_t(&steps.t[..lens[k]]), describe(plan, wire, &[])
            );
        }
    }
    same(run(plan, &sl), &cuts)?;
    st.runs += 1;
    // every cut into two
    if wire.len() <= 300 {
        for c in 0..=wire.len() {
            let cuts = [c];
            same(run(plan, &slices(wire, &cuts)), &cuts)?;
            st.runs += 1;
        }
    }
    for _ in 0..4 {
        let cuts = s.cuts(wire.len());
        let sl = slices(wire, &cuts);
        same(run(plan, &sl), &cuts)?;
        st.runs += 1;
        // what one slice of the prefix decodes, after every slice
        if sl.len() <= 12 && wire.len() <= 4000 {
            let (lens, steps) = run_steps(plan, &sl);
            for (k, &l) in lens.iter().enumerate() {
                let upto = cuts.get(k).cloned().unwrap_or(wire.len());
                let (one, o) = run_steps(plan, &[&wire[..upto]]);
                st.runs += 1;
                if o.end != End::More || one.is_empty() {
                    break;
                }
                ensure!(
                    o.t[..] == steps.t[..l],
                    "after {} bytes one slice has decoded {}\n and the pieces {}\n {}",
                    upto, show_t(&o.t), show_t(&steps.t[..l]), describe(plan, wire, &cuts)
                );
            }
        }
    }
    Ok(())
}

pub fn mutated(s: &mut Src, st: &mut Stats, wire: &mut Vec<u8>) {
    let n = match s.weighted(&[100, 110, 40]) {
        0 => {
            st.class("valid");
            0
        }
        1 => 1,
        _ => s.range(2, 5),
    };
    for _ in 0..n {
        let what = mutate(s, wire);
        st.class(what);
    }
}

fn small_head(s: &mut Src) -> Vec<u8> {
    // most cases stay below the length up to which every cut is tried
    let mut wire = head(s).wire;
    for _ in 0..3 {
        if wire.len() <= 300 || s.chance(8) {
            break;
        }
        wire = head(s).wire;
    }
    wire
}

fn class_end(st: &mut Stats, e: &End) {
    st.class(match *e {
        End::More => "outcome: more expected",
        End::Finished => "outcome: finished",
        End::Err(..) => "outcome: error",
        End::Bad(_) => "outcome: bad",
    });
}

fn c04(s: &mut Src, st: &mut Stats) -> Check {
    let fresh = s.chance(60);
    let mut wire = if fresh { vec![] } else { leading(s) };
    let m = small_head(s);
    wire.extend_from_slice(&m);
    mutated(s, st, &mut wire);
    let n = if s.chance(80) { s.below(30) } else { 0 };
    wire.extend_from_slice(&s.bulk(n));
    let plan = Plan::head(fresh);
    class_end(st, &run(&plan, &[&wire]).end);
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| show(&wire));
    fragmentation(s, st, &plan, &wire, true)
}

/// A body of one of the three kinds.
pub fn any_body(s: &mut Src, st: &mut Stats, big: bool) -> (Plan, Vec<u8>, T) {
    match s.below(3) {
        0 => {
            st.class("chunked");
            let (m, _) = chunked(s, big);
            (Plan::chunked(), m.wire, m.t)
        }
        1 => {
            st.class("multipart");
            let (m, plan, i) = multipart(s, big);
            st.class_if(i.near, "data resembles boundary");
            st.class_if(i.by_length > 0, "part with content length");
            (plan, m.wire, m.t)
        }
        _ => {
            st.class("url-encoded");
            let (m, _) = url_encoded(s, big);
            (Plan::url(m.wire.len()), m.wire, m.t)
        }
    }
}

fn c05(s: &mut Src, st: &mut Stats) -> Check {
    let (mut plan, mut wire, _) = any_body(s, st, false);
    mutated(s, st, &mut wire);
    if plan.mode == Mode::Url && s.chance(200) {
        let n = s.range(wire.len().saturating_sub(3), wire.len() + 3);
        plan.length = Some(n);
    }
    let n = if s.chance(80) { s.below(30) } else { 0 };
    wire.extend_from_slice(&s.bulk(n));
    class_end(st, &run(&plan, &[&wire]).end);
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| describe(&plan, &wire, &[]));
    fragmentation(s, st, &plan, &wire, false)
}

fn c06(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(20) {
        // a chunk length that is too long for its data to be sent
        let digits = s.range(5, 8);
        let mut n = 0usize;
        let mut m = Msg::default();
        m.t.mark(CHUNK_BEGIN);
        for _ in 0..digits {
            let d = s.below(16);
            n = n * 16 + d;
            m.wire.push(b"0123456789abcdefABCDEF"[if d > 9 && s.chance(128) { d + 6 } else { d }]);
        }
        if n > 100000 {
            st.class("huge chunk length");
            m.t.chunk_length(n);
            let e = extensions(s, &mut m);
            st.class_if(e > 0, "extensions");
            m.t.mark(EXTS_FINISHED);
            m.wire.extend_from_slice(b"\r\n");
            let n = s.below(200);
            let d = tricky_data(s, n);
            m.wire.extend_from_slice(&d);
            m.t.data(CHUNK_DATA, &d);
            st.nontrivial(true, &m.wire);
            let cuts = s.cuts(m.wire.len());
            for cuts in [&cuts[..], &[]] {
                let out = run(&Plan::chunked(), &slices(&m.wire, cuts));
                ensure!(
                    out.end == End::More && out.t == m.t.t && out.count == m.wire.len(),
                    "{}\n expected {}\n {}", out.show(), show_t(&m.t.t), describe(&Plan::chunked(), &m.wire, cuts)
                );
            }
            return Ok(());
        }
    }
    let (m, i) = chunked(s, true);
    st.class_if(i.chunks == 0, "no chunk but the last");
    st.class_if(i.chunks > 1, "several chunks");
    st.class_if(i.exts > 0, "extensions");
    st.class_if(i.trailers > 0, "trailers");
    st.class_if(i.big, "chunk over 5000 bytes");
    st.nontrivial(i.chunks + i.exts + i.trailers > 0, &m.wire);
    st.sample(|| show(&m.wire));
    expect_everywhere(s, st, &Plan::chunked(), &m.wire, &m.t.t)
}

/// A part with a content length that is longer than what is sent of it.
fn c07_huge(s: &mut Src, st: &mut Stats) -> Check {
    st.class("huge content length");
    let b = boundary(s);
    let n = (1usize << *s.pick(&[12, 16, 31, 32, 33, 48, 63])) - 1 + s.below(3);
    let n = if s.chance(30) { usize::MAX - s.below(3) } else { n };
    let mut m = Msg::default();
    m.wire.extend_from_slice(b"--");
    m.wire.extend_from_slice(&b);
    m.wire.extend_from_slice(b"\r\n");
    m.t.mark(PART_BEGIN);
    headers(s, &mut m);
    let mut d = vec![];
    for _ in 0..s.range(1, 4) {
        d.extend_from_slice(&part_data(s, &b).0);
        d.extend_from_slice(b"\r\n--");
        d.extend_from_slice(&b);
    }
    d.truncate(4000);
    m.t.data(PART_DATA, &d);
    m.wire.extend_from_slice(&d);
    let plan = Plan::multipart(&b, &[Some(n)]);
    st.nontrivial(true, &m.wire);
    let cuts = s.cuts(m.wire.len());
    for cuts in [&cuts[..], &[]] {
        let out = run(&plan, &slices(&m.wire, cuts));
        st.runs += 1;
        ensure!(
            out.end == End::More && out.t == m.t.t && out.count == m.wire.len(),
            "{}\n expected {}\n {}", out.show(), show_t(&m.t.t), describe(&plan, &m.wire, cuts)
        );
    }
    Ok(())
}

fn c07(s: &mut Src, st: &mut Stats) -> Check {
    if s.weighted(&[99, 1]) == 1 {
        return c07_huge(s, st);
    }
    let (m, plan, i) = multipart(s, true);
    st.class_if(i.parts > 1, "several parts");
    st.class_if(i.near, "data resembles boundary");
    st.class_if(i.by_length > 0, "part with content length");
    st.class_if(i.by_length > 0 && i.by_length < i.parts, "both kinds of parts");
    st.class_if(i.headers > 0, "part headers");
    st.nontrivial(i.parts > 0, &m.wire);
    st.sample(|| describe(&plan, &m.wire, &[]));
    expect_everywhere(s, st, &plan, &m.wire, &m.t.t)?;
    if m.wire.len() < 3000 {
        expect(&plan, &m.wire, b"", &all_cuts(m.wire.len()), &m.t.t, st)?;
    }
    // cuts around line ends, where the delimiter is searched
    let mut cuts = vec![];
    for (i, &b) in m.wire.iter().enumerate() {
        if (b == b'\r' || b == b'-') && s.chance(100) {
            cuts.push(i + s.below(4));
        }
        if cuts.len() > 60 {
            break;
        }
    }
    cuts.sort_unstable();
    expect(&plan, &m.wire, b"zz", &cuts, &m.t.t, st)
}

fn c08(s: &mut Src, st: &mut Stats) -> Check {
    let (m, pairs) = url_encoded(s, true);
    let plan = Plan::url(m.wire.len());
    st.class_if(pairs.len() > 1, "several pairs");
    st.class_if(m.wire.contains(&b'%'), "escapes");
    st.class_if(m.wire.contains(&b'+'), "plus");
    st.nontrivial(!m.wire.is_empty(), &m.wire);
    st.sample(|| show(&m.wire));
    let n = if s.chance(200) { s.below(30) } else { 0 };
    let after = s.bulk(n);
    expect(&plan, &m.wire, b"", &[], &m.t.t, st)?;
    expect(&plan, &m.wire, &after, &[], &m.t.t, st)?;
    let cuts = s.cuts(m.wire.len() + after.len());
    expect(&plan, &m.wire, &after, &cuts, &m.t.t, st)?;
    if s.chance(150) {
        expect_history(s, st, &plan, &m.wire, &after, &m.t.t)?;
    }
    // one slice that ends where the body ends, then others
    expect(&plan, &m.wire, &after, &[m.wire.len()], &m.t.t, st)?;
    if !m.wire.is_empty() {
        // a declared length that ends earlier or later
        let extra = match s.weighted(&[200, 20, 20]) {
            0 => s.below(20),
            // lengths that do not fit into 16 or 32 bits
            1 => (1usize << *s.pick(&[8, 16, 31, 32, 48, 63])) - 1 - s.below(2),
            _ => usize::MAX - m.wire.len() - 1 - s.below(3),
        };
        let longer = Plan::url(m.wire.len() + 1 + extra);
        let out = run(&longer, &slices(&m.wire, &cuts));
        ensure!(
            out.end == End::More && out.count == m.wire.len(),
            "{} more bytes declared: {}\n {}", 1 + extra, out.show(), describe(&longer, &m.wire, &cuts)
        );
        ensure!(
            out.t[..] == m.t.t[..m.t.t.len() - 1],
            "decoded {}\nexpected {}\n {}", show_t(&out.t), show_t(&m.t.t[..m.t.t.len() - 1]), describe(&longer, &m.wire, &cuts)
        );
        let l = s.below(m.wire.len());
        let shorter = Plan::url(l);
        let model = Model::run(&shorter, &m.wire);
        if !model.unspecified {
            expect(&shorter, &m.wire[..l], &m.wire[l..], &[], &model.t.t, st)?;
            expect(&shorter, &m.wire[..l], &m.wire[l..], &cuts, &model.t.t, st)?;
        }
    }
    Ok(())
}

/// Compare one slice with the reference automaton.
fn against_model(st: &mut Stats, plan: &Plan, wire: &[u8]) -> Check {
    against_model_cut(st, plan, wire, &[])
}

fn against_model_cut(st: &mut Stats, plan: &Plan, wire: &[u8], cuts: &[usize]) -> Check {
    let model = Model::run(plan, wire);
    if model.unspecified {
        st.class("left out: unspecified or known finding");
        return Ok(());
    }
    class_end(st, &model.end);
    if let End::Err(k, _) = model.end {
        st.class(match k {
            Kind::Method => "error: method",
            Kind::Url => "error: url",
            Kind::Version => "error: version",
            Kind::StatusCode => "error: status code",
            Kind::Status => "error: status",
            Kind::HeaderName => "error: header name",
            Kind::HeaderValue => "error: header value",
            Kind::CrlfSequence => "error: line end",
            Kind::ChunkLength => "error: chunk length",
            Kind::ChunkExtensionName => "error: extension name",
            Kind::ChunkExtensionValue => "error: extension value",
            Kind::MultipartBoundary => "error: boundary",
            Kind::UrlEncodedName => "error: url-encoded name",
            Kind::UrlEncodedValue => "error: url-encoded value",
            _ => "error: other",
        });
        st.nontrivial(true, wire);
    }
    let raw = run(plan, &slices(wire, cuts));
    let mut whole = raw.t.clone();
    let out = raw.norm();
    st.runs += 1;
    // of the element that an error interrupts, nothing is reported that was not received before the error
    if let (&End::Err(..), &End::Err(..)) = (&out.end, &model.end) {
        whole.drain(..out.t.len());
        let expected = &model.t.t[model.norm().len()..];
        ensure!(
            expected.starts_with(&whole) || whole.is_empty() || whole == [HEADER_VALUE],
            "of the interrupted element, reported {}\nreceived {}\n {}", show_t(&whole), show_t(expected), describe(plan, wire, cuts)
        );
    }
    let (got, want) = match (&out.end, &model.end) {
        (End::Err(a, _), End::Err(b, _)) if *a == Kind::MultipartBoundary && a == b => (out.end.class(), model.end.class()),
        _ => (out.end.clone(), model.end.clone()),
    };
    ensure!(
        got == want,
        "{:?} instead of {:?} (at byte {})\n {}\n expected {}\n {}",
        got, want, model.used, out.show(), show_t(&model.norm()), describe(plan, wire, cuts)
    );
    ensure!(
        out.t == model.norm(),
        "decoded {}\nexpected {}\n {}", show_t(&out.t), show_t(&model.norm()), describe(plan, wire, cuts)
    );
    if let End::Finished = model.end {
        ensure!(out.count == model.used, "{} bytes taken instead of {}\n {}", out.count, model.used, describe(plan, wire, cuts));
    }
    Ok(())
}


/// Elements that together visit every state of the parser.
fn visiting() -> Vec<(Plan, Vec<u8>)> {
    let mut v: Vec<(Plan, Vec<u8>)> = vec![];
    for w in &[
        &b"\r\n \tGET /a HTTP/1.1\r\nA: b\r\n\r\n"[..],
        b"POST / HTTP/1.0\r\nContent-Length: 1\r\nXyZ:  \"a\\\"b\" c\r\n d\r\nE:\r\n\t f\r\n\r\n",
        b"H / HTTP/12.345\r\na:\xe4\r\n\r\n",
        b"HT /~ HTTP/123.45\r\nDate:x\r\n\r\n",
        b"HTT / HTTP/2.0\r\n\r\n",
        b"HTTP / HTTP/1.10\r\nzZ: \"\"\r\n\r\n",
        b"HTTPS / HTTP/0.9\r\n\r\n",
        b"HTTP/1.1 200 O K\r\nServer: s\r\n\r\n",
        b"HTTP/2.0 999 \xe4\r\n\r\n",
        b"HTTP/1.0 404 \r\nA: b\r\nB: c\r\n\r\n",
        b"HTTP/12.345 100 a\r\n\r\n",
        b"HTTP/123.45 100 a\r\n\r\n",
        b"HTTP/1.12 100 a\r\n\r\n",
        b"DELETE * HTTP/1.1\r\nx-y_z!: ,;=\r\n\r\n",
    ] {
        v.push((Plan::head(false), w.to_vec()));
        if !w[0].is_ascii_whitespace() {
            v.push((Plan::head(true), w.to_vec()));
        }
    }
    for w in &[
        &b"2;a=b;Cd=\"e\\\"f\"g; h\r\nxy\r\n0;z= 1\r\nA: b\r\nC: \"d\"\r\n\r\n"[..],
        b"00000002\r\nab\r\n0\r\n\r\n",
        b"aF\r\nab",
        b"FFFFFFFF;a\r\nab",
        b"1;A;B\r\n\r\r\n1\r\n\n\r\n00;q=\"\"\r\nx:\r\n y\r\n\r\n",
    ] {
        v.push((Plan::chunked(), w.to_vec()));
    }
    for &(b, w, ref parts) in &[
        (&b"a-b"[..], &b"--a-b\r\nA: b\r\n\r\nx\r\n--a-c\r\r\n-\r\n--a-b\r\n\r\n\r\n--a-b--"[..], vec![]),
        (b"a-b", b"--a-b\r\nA: b\r\n\r\nxyz\r\n--a-b\r\n\r\nw\r\n--a-b--", vec![Some(3), Some(1)]),
        (b"-", b"---\r\n\r\n\r\n--\r\n---\r\n\r\na\r\n\r\n-----", vec![]),
    ] {
        v.push((Plan::multipart(b, parts), w.to_vec()));
    }
    for w in &[&b"a=b&c%41+d=%4a+e;f&g=h"[..], b"&;=%C3%a4", b"a%f", b"x=%F"] {
        v.push((Plan::url(w.len() + 3), w.to_vec()));
        v.push((Plan::url(w.len()), w.to_vec()));
        v.push((Plan::url(w.len() + 1), w.to_vec()));
    }
    v
}

/// The beginnings of these elements: the element, the length, and whether it is the first one that leads to its states (of the
/// parser and of the automaton).
fn beginnings() -> &'static (Vec<(Plan, Vec<u8>)>, Vec<(usize, usize, bool)>) {
    static ALL: std::sync::OnceLock<(Vec<(Plan, Vec<u8>)>, Vec<(usize, usize, bool)>)> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let v = visiting();
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        for (i, (plan, wire)) in v.iter().enumerate() {
            for n in 0..wire.len() + 1 {
                let mut m = Model::new(plan);
                for &b in &wire[..n] {
                    m.step(b);
                }
                let mut p = Parser::new();
                plan.init(&mut p);
                let mut h = Rec::new(&plan.parts, Pause::Never);
                let _ = p.resume(&mut h, &wire[..n]);
                let first = seen.insert((plan.mode as u8, format!("{:?} {}", p.state(), m.state_name())));
                out.push((i, n, first));
            }
        }
        (v, out)
    })
}

const ELEMENT_STARTS: u64 = 1500;

/// Every byte, and every pair of bytes that starts with an acceptable one, in every state.
fn pairs(i: u64, st: &mut Stats, bodies: bool) -> Check {
    let &(ref all, ref starts) = beginnings();
    assert!(starts.len() as u64 <= ELEMENT_STARTS);
    let (e, n, first) = match starts.get(i as usize) {
        Some(x) => *x,
        None => return Ok(()),
    };
    let (ref plan, ref wire) = all[e];
    if (plan.mode != Mode::Head) != bodies {
        return Ok(());
    }
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let some: &[u8] = b"\r\n\t \"\\:;=-0aAZ%&+/.{\x7f\x80\xff";
    let mut w = wire[..n].to_vec();
    w.extend_from_slice(&[0, 0]);
    for b in 0..=255u8 {
        w[n] = b;
        against_model_cut(st, plan, &w[..n + 1], &[])?;
        against_model_cut(st, plan, &w[..n + 1], &[n])?;
        let m = Model::run(plan, &w[..n + 1]);
        if m.end != End::More || m.unspecified {
            continue;
        }
        for c in 0..=255u8 {
            if !first && !deep && !some.contains(&c) {
                continue;
            }
            w[n + 1] = c;
            against_model_cut(st, plan, &w, &[])?;
            match (b ^ c) % 3 {
                0 => against_model_cut(st, plan, &w, &[n, n + 1])?,
                1 => against_model_cut(st, plan, &w, &[n + 1])?,
                _ => against_model_cut(st, plan, &w, &[n])?,
            }
        }
    }
    Ok(())
}

fn c09_enum(i: u64, st: &mut Stats) -> Check {
    pairs(i, st, false)
}

fn c10_enum(i: u64, st: &mut Stats) -> Check {
    pairs(i, st, true)
}

/// Change one byte of a message to each of the 256 values (or to some, for long ones).
fn sweep(s: &mut Src, st: &mut Stats, plan: &Plan, wire: &[u8]) -> Check {
    if wire.is_empty() {
        return Ok(());
    }
    let i = s.below(wire.len());
    let mut w = wire.to_vec();
    if s.chance(60) {
        w.insert(i, 0);
    }
    for b in 0..=255u8 {
        w[i] = b;
        let mut p = plan.clone();
        if p.mode == Mode::Url {
            p.length = Some(w.len());
        }
        against_model(st, &p, &w)?;
    }
    Ok(())
}

fn malformed(s: &mut Src, st: &mut Stats, plan: Plan, mut wire: Vec<u8>) -> Check {
    against_model(st, &plan, &wire)?;
    if wire.len() <= 2000 && s.chance(100) {
        st.sample(|| describe(&plan, &wire, &[]));
        return sweep(s, st, &plan, &wire);
    }
    let n = s.range(1, 3);
    let mut plan = plan;
    for _ in 0..n {
        mutate(s, &mut wire);
        if plan.mode == Mode::Url {
            plan.length = Some(wire.len());
        }
        against_model(st, &plan, &wire)?;
    }
    st.sample(|| describe(&plan, &wire, &[]));
    Ok(())
}

fn c09(s: &mut Src, st: &mut Stats) -> Check {
    let fresh = s.chance(60);
    let mut wire = if fresh { vec![] } else { leading(s) };
    let m = small_head(s);
    wire.extend_from_slice(&m);
    if fresh {
        // Parser::new() does not skip blank lines: known finding C15-NEW
        let b = wire[0];
        wire[0] = if b.is_ascii_whitespace() { b'G' } else { b };
    }
    malformed(s, st, Plan::head(fresh), wire)
}

fn c10(s: &mut Src, st: &mut Stats) -> Check {
    let (plan, wire, _) = any_body(s, st, false);
    malformed(s, st, plan, wire)
}

pub fn show_pause(pause: &Pause) -> String {
    match *pause {
        Pause::Never => "no pause".to_string(),
        Pause::Always => "pause at every callback".to_string(),
        Pause::Kinds(k) => format!(
            "pause at {:?}",
            (0..22).filter(|i| k >> i & 1 == 1).map(|i| TAGS[i]).collect::<Vec<_>>()
        ),
        Pause::Random(_, p) => format!("pause at {} of 256 callbacks", p),
        Pause::Nth(ref v) => format!("pause at callbacks {:?}", v),
    }
}

pub fn pause_plan(s: &mut Src, callbacks: usize) -> Pause {
    match s.weighted(&[60, 60, 60, 70]) {
        0 => Pause::Always,
        1 => Pause::Kinds(s.u32() & s.u32()),
        2 => Pause::Random(Rng(s.byte() as u64), *s.pick(&[128, 20, 60, 200])),
        _ => {
            let n = s.range(1, 3);
            Pause::Nth((0..n).map(|_| s.below(callbacks.max(1))).collect())
        }
    }
}

/// Any element, valid or changed.
pub fn any_element(s: &mut Src, st: &mut Stats, broken: bool) -> (Plan, Vec<u8>) {
    let (mut plan, mut wire) = if s.chance(110) {
        st.class("head");
        let fresh = s.chance(40);
        let mut w = if fresh { vec![] } else { leading(s) };
        w.extend_from_slice(&small_head(s));
        (Plan::head(fresh), w)
    } else {
        let (p, w, _) = any_body(s, st, false);
        (p, w)
    };
    if broken {
        mutated(s, st, &mut wire);
        if plan.mode == Mode::Url && s.chance(128) {
            plan.length = Some(wire.len());
        }
    }
    let n = if s.chance(60) { s.below(20) } else { 0 };
    wire.extend_from_slice(&s.bulk(n));
    (plan, wire)
}

fn c11(s: &mut Src, st: &mut Stats) -> Check {
    let (plan, wire) = any_element(s, st, true);
    let base = run(&plan, &[&wire]).norm();
    st.runs += 1;
    st.nontrivial(base.callbacks > 0, &wire);
    let multi = plan.mode == Mode::Multipart;
    let same = |out: Out, pause: &Pause, cuts: &[usize]| -> Check {
        let what = show_pause(pause);
        let out = out.norm();
        if let End::Bad(ref m) = out.end {
            return Err(format!("{} ({})\n {}", m, what, describe(&plan, &wire, cuts)));
        }
        let e = if multi { out.end.class() == base.end.class() } else { out.end == base.end };
        ensure!(
            e && out.t == base.t,
            "without pause: {}\n with ({}): {}\n {}", base.show(), what, out.show(), describe(&plan, &wire, cuts)
        );
        ensure!(
            multi && matches!(base.end, End::Err(..)) || out.count == base.count && (out.taken == base.taken || matches!(base.end, End::Err(..))),
            "without pause {} bytes taken, byte_count {}; with ({}) {} and {}\n {}",
            base.taken, base.count, what, out.taken, out.count, describe(&plan, &wire, cuts)
        );
        Ok(())
    };
    for i in 0..4 {
        let pause = if i == 0 { Pause::Always } else { pause_plan(s, base.callbacks) };
        let poke = s.chance(100);
        let cuts = if i == 1 { vec![] } else { s.cuts(wire.len()) };
        let out = run_with(&plan, &mut Rec::new(&plan.parts, pause.clone()), &slices(&wire, &cuts), poke);
        st.runs += 1;
        st.class_if(out.pauses > 0, "paused at least once");
        same(out, &pause, &cuts)?;
    }
    // one pause at every single callback
    if base.callbacks <= 60 && wire.len() < 600 {
        for n in 0..base.callbacks {
            let pause = Pause::Nth(vec![n]);
            let out = run_with(&plan, &mut Rec::new(&plan.parts, pause.clone()), &[&wire], false);
            st.runs += 1;
            ensure!(out.pauses == 1, "{} pauses\n {}", out.pauses, describe(&plan, &wire, &[]));
            same(out, &pause, &[])?;
        }
    }
    // a handler that implements nothing
    let mut quiet = plan.clone();
    quiet.parts.clear();
    let b = run(&quiet, &[&wire]);
    let cuts = s.cuts(wire.len());
    for cuts in [&cuts[..], &[]] {
        let (end, count, taken) = run_noop(&quiet, &slices(&wire, cuts));
        st.runs += 2;
        let e = if multi { end.class() == b.end.class() } else { end == b.end };
        ensure!(
            e && (multi && matches!(b.end, End::Err(..)) || count == b.count && (taken == b.taken || matches!(b.end, End::Err(..)))),
            "handler without callbacks: {:?} after {} ({}) bytes, with callbacks: {:?} after {} ({})\n {}",
            end, taken, count, b.end, b.taken, b.count, describe(&quiet, &wire, cuts)
        );
    }
    st.sample(|| describe(&plan, &wire, &[]));
    Ok(())
}

/// Bytes of any kind for a parser in any mode.
pub fn arbitrary(s: &mut Src, st: &mut Stats) -> (Plan, Vec<u8>) {
    if s.chance(120) {
        st.class("mutated element");
        return any_element(s, st, true);
    }
    let (mut plan, mut wire) = match s.below(4) {
        0 => (Plan::head(s.chance(100)), vec![]),
        1 => (Plan::chunked(), vec![]),
        2 => {
            let b = if s.chance(60) {
                let n = s.below(12);
                s.bytes(n)
            } else {
                boundary(s)
            };
            let n = s.below(4);
            let parts: Vec<_> = (0..n)
                .map(|_| match s.below(4) {
                    0 => None,
                    1 => Some(s.below(50)),
                    2 => Some(0),
                    _ => Some(usize::MAX - s.below(3)),
                })
                .collect();
            (Plan::multipart(&b, &parts), vec![])
        }
        _ => (Plan::url(0), vec![]),
    };
    st.class("arbitrary bytes");
    let pieces = s.range(1, 12);
    for _ in 0..pieces {
        match s.weighted(&[60, 60, 60, 40, 4]) {
            0 => {
                let n = s.len(100);
                wire.extend(s.bytes(n));
            }
            1 => {
                let w: &[u8] = *s.pick(&[
                    &b"\r\n"[..], b"\r\n\r\n", b"HTTP/1.1 ", b"GET / ", b"H", b"HT", b"HTTP", b"HTTP/", b"0\r\n", b"5;a=b\r\n",
                    b"--", b"\r\n--", b"%4", b"a=b&", b"\"", b"\\", b": ", b"Accept:", b"Content-Security-Policy:", b"FFFFFFFF\r\n", b"1.1",
                    b" 200 OK\r\n",
                ]);
                wire.extend_from_slice(w);
            }
            2 => {
                if let Some(ref b) = plan.boundary {
                    wire.extend_from_slice(b"--");
                    wire.extend_from_slice(b);
                    if s.chance(128) {
                        wire.extend_from_slice(b"\r\n");
                    }
                } else {
                    let n = s.len(60);
                    wire.extend((0..n).map(|_| s.range(0x20, 0x7E) as u8));
                }
            }
            3 => wire.push(s.byte()),
            _ => {
                let n = s.range(100, 70000);
                wire.extend_from_slice(&s.bulk(n));
            }
        }
    }
    if plan.mode == Mode::Url {
        plan.length = Some(match s.below(4) {
            0 => wire.len(),
            1 => s.below(wire.len() + 1),
            2 => wire.len() + s.below(100),
            _ => usize::MAX,
        });
    }
    (plan, wire)
}

fn c12(s: &mut Src, st: &mut Stats) -> Check {
    let (plan, wire) = arbitrary(s, st);
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| describe(&plan, &wire, &[]));
    for i in 0..4 {
        let cuts = match i {
            0 => vec![],
            1 => all_cuts(wire.len().min(5000)),
            _ => s.cuts(wire.len()),
        };
        let pause = if i > 1 { pause_plan(s, wire.len()) } else { Pause::Never };
        // slices of their own, so that reading past the end is not reading the next slice
        let mut rec = Rec::new(&plan.parts, pause);
        let out = mem::fenced(&slices(&wire, &cuts), i == 3, |sl| run_with(&plan, &mut rec, sl, i == 3));
        st.runs += 1;
        if i == 0 {
            class_end(st, &out.end);
        }
        if let End::Bad(ref m) = out.end {
            return Err(format!("{}\n {}", m, describe(&plan, &wire, &cuts)));
        }
        ensure!(
            out.count <= wire.len() && out.taken <= out.count,
            "{} bytes taken (byte_count {}) of {}\n {}", out.taken, out.count, wire.len(), describe(&plan, &wire, &cuts)
        );
        ensure!(
            rec.data_bytes <= wire.len() + 16,
            "{} bytes of data reported\n {}", rec.data_bytes, describe(&plan, &wire, &cuts)
        );
        if let End::Err(k, _) = out.end {
            ensure!(k != Kind::Dead && k != Kind::Other, "undocumented first error {:?}\n {}", out.end, describe(&plan, &wire, &cuts));
        }
    }
    Ok(())
}

/// A history on one parser that checks each count.
fn c13(s: &mut Src, st: &mut Stats) -> Check {
    let rounds = s.range(1, 4);
    let mut elements = vec![];
    for _ in 0..rounds {
        let broken = s.chance(100);
        elements.push(any_element(s, st, broken));
    }
    for e in elements.iter_mut() {
        e.0.fresh = false;
    }
    let mut log = String::new();
    let mut p: Parser<Rec> = Parser::new();
    let mut total = 0usize;
    for (i, (plan, wire)) in elements.iter().enumerate() {
        plan.init(&mut p);
        log.push_str(&format!("\n {}: {}", i, describe(plan, wire, &[])));
        ensure!(p.byte_count() == total, "byte_count {} after initialisation, {} bytes were taken{}", p.byte_count(), total, log);
        let mut rec = Rec::new(&plan.parts, if s.chance(150) { pause_plan(s, 40) } else { Pause::Never });
        let cuts = s.cuts(wire.len());
        let stop_early = if s.chance(60) { s.below(cuts.len() + 2) } else { usize::MAX };
        // where the one-slice run ends, and what it decodes
        let whole = run(plan, &[wire]);
        st.runs += 1;
        let mut pos = 0;
        let mut done = false;
        for (k, sl) in slices(wire, &cuts).iter().enumerate() {
            if k >= stop_early || done {
                break;
            }
            let mut sl: &[u8] = sl;
            loop {
                let r = p.resume(&mut rec, sl);
                let paused = std::mem::replace(&mut rec.paused, false);
                match r {
                    Ok(Success::Eos(n)) => {
                        ensure!(n == sl.len(), "Eos({}) for {} bytes at {}{}", n, sl.len(), pos, log);
                        total += n;
                        pos += n;
                    }
                    Ok(Success::Callback(n)) => {
                        ensure!(n <= sl.len() && paused, "Callback({}) for {} bytes at {}{}", n, sl.len(), pos, log);
                        st.class("pause");
                        total += n;
                        pos += n;
                        sl = &sl[n..];
                        ensure!(p.byte_count() == total, "byte_count {}, {} bytes were taken (pause at {}){}", p.byte_count(), total, pos, log);
                        // what has been reported is decoded from the bytes taken, apart from what
                        // was already seen of the rest of the slice
                        let seen = run_steps(plan, &[&wire[..pos + sl.len()]]).1;
                        ensure!(
                            seen.t.starts_with(&rec.t.t) || matches!(seen.end, End::Err(..)),
                            "paused at {} with {}\n but the input up to {} decodes to {}{}",
                            pos, show_t(&rec.t.t), pos + sl.len(), show_t(&seen.t), log
                        );
                        if !sl.is_empty() {
                            continue;
                        }
                    }
                    Ok(Success::Finished(n)) => {
                        ensure!(n <= sl.len(), "Finished({}) for {} bytes{}", n, sl.len(), log);
                        total += n;
                        pos += n;
                        done = true;
                        ensure!(
                            whole.end == End::Finished && pos == whole.taken,
                            "finished after {} bytes; in one slice {:?} after {}{}", pos, whole.end, whole.taken, log
                        );
                    }
                    Err(_) => {
                        // the count includes what was decoded before the offending byte
                        let now = p.byte_count();
                        ensure!(
                            now >= total && now - total <= sl.len(),
                            "byte_count grew by {} in a failed call with {} bytes{}", now.wrapping_sub(total), sl.len(), log
                        );
                        if plan.mode != Mode::Multipart {
                            ensure!(
                                matches!(whole.end, End::Err(..)) && pos + (now - total) == whole.count,
                                "failed after {} bytes; in one slice {:?} after {}{}", pos + (now - total), whole.end, whole.count, log
                            );
                        }
                        total = now;
                        done = true;
                    }
                    #[allow(unreachable_patterns)]
                    _ => panic!("an outcome that is not documented"),
                }
                break;
            }
            ensure!(p.byte_count() == total, "byte_count {}, {} bytes were taken{}", p.byte_count(), total, log);
        }
        if s.chance(40) {
            p.reset();
            ensure!(p.byte_count() == total, "byte_count {} after reset, {} bytes were taken{}", p.byte_count(), total, log);
        }
    }
    st.runs += 1;
    st.class_if(rounds > 1, "several elements on one parser");
    st.nontrivial(total > 0, log.as_bytes());
    st.sample(|| log.clone());
    Ok(())
}

/// Prepare the parser for the next element, by reset() if it is of the same kind.
fn next<'a>(before: &Plan, plan: &'a Plan, p: &mut Parser<'a, Rec>, by_reset: bool) {
    if by_reset && before.mode == plan.mode {
        p.reset();
        if let Some(ref b) = plan.boundary {
            p.set_boundary(b);
        }
        if let Some(l) = plan.length {
            p.set_length(l);
        }
    } else {
        plan.init(p);
    }
}

fn c14(s: &mut Src, st: &mut Stats) -> Check {
    // a connection: heads and their bodies
    let n = s.range(2, 6);
    let mut items: Vec<(Plan, Vec<u8>, T)> = vec![];
    for i in 0..n {
        let fresh = i == 0 && s.chance(128);
        let mut w = if fresh { vec![] } else { leading(s) };
        let m = head(s);
        w.extend_from_slice(&m.wire);
        items.push((Plan::head(fresh), w, m.t));
        if s.chance(180) {
            items.push(any_body(s, st, false));
            if s.chance(30) {
                // bodies in a row, as in a batch of encoded values
                items.push(any_body(s, st, false));
            }
        }
    }
    let mut stream = vec![];
    let mut ends = vec![];
    for it in &items {
        stream.extend_from_slice(&it.1);
        ends.push(stream.len());
    }
    let n = if s.chance(60) { s.below(20) } else { 0 };
    let rest = s.bulk(n);
    stream.extend_from_slice(&rest);
    let cuts = match s.below(3) {
        0 => vec![],
        1 => ends.iter().map(|&e| (e + s.below(5)).saturating_sub(2).min(stream.len())).collect(),
        _ => s.cuts(stream.len()),
    };
    let mut cuts = cuts;
    cuts.sort_unstable();
    let pause = if s.chance(60) { pause_plan(s, 100) } else { Pause::Never };
    let by_reset = s.chance(128);
    st.class_if(by_reset && items.windows(2).any(|w| w[0].0.mode == w[1].0.mode), "reset() between elements of one kind");
    st.nontrivial(true, &stream);
    st.sample(|| format!("{} elements, {}", items.len(), show(&stream)));
    let log = || {
        let mut l = format!("\n connection {} cut at {:?}", show(&stream), &cuts[..cuts.len().min(40)]);
        for it in &items {
            l.push_str(&format!("\n  {} ({} bytes)", it.0.show(), it.1.len()));
        }
        l
    };
    let mut p: Parser<Rec> = Parser::new();
    let mut k = 0;
    items[0].0.init(&mut p);
    let mut rec = Rec::new(&items[0].0.parts, pause.clone());
    let mut pos = 0;
    let mut guard = 0;
    'outer: for sl in slices(&stream, &cuts) {
        let mut sl: &[u8] = sl;
        loop {
            guard += 1;
            ensure!(guard < 100000 + 8 * stream.len(), "no progress{}", log());
            let r = p.resume(&mut rec, sl);
            rec.paused = false;
            match r {
                Ok(Success::Eos(n)) => {
                    ensure!(n == sl.len(), "element {}: Eos({}) for {} bytes{}", k, n, sl.len(), log());
                    pos += n;
                    break;
                }
                Ok(Success::Callback(n)) => {
                    pos += n;
                    ensure!(n <= sl.len(), "element {}: Callback({}) for {} bytes{}", k, n, sl.len(), log());
                    sl = &sl[n..];
                }
                Ok(Success::Finished(n)) => {
                    pos += n;
                    ensure!(
                        n <= sl.len() && pos == ends[k],
                        "element {} finished at byte {} of the connection instead of {}{}", k, pos, ends[k], log()
                    );
                    ensure!(
                        rec.t.t == items[k].2.t,
                        "element {} decoded {}\nexpected {}{}", k, show_t(&rec.t.t), show_t(&items[k].2.t), log()
                    );
                    ensure!(p.byte_count() == pos, "byte_count {} at byte {}{}", p.byte_count(), pos, log());
                    sl = &sl[n..];
                    k += 1;
                    if k == items.len() {
                        break 'outer;
                    }
                    next(&items[k - 1].0, &items[k].0, &mut p, by_reset);
                    rec = Rec::new(&items[k].0.parts, pause.clone());
                }
                Err(e) => {
                    return Err(format!("element {} failed with {:?} near byte {}{}", k, e, pos, log()));
                }
                #[allow(unreachable_patterns)]
                _ => panic!("an outcome that is not documented"),
            }
        }
    }
    st.runs += 1;
    if k < items.len() {
        // bodies of no bytes, and pending callbacks, finish with an empty slice
        for _ in 0..400 {
            let r = p.resume(&mut rec, b"");
            rec.paused = false;
            if let Ok(Success::Finished(0)) = r {
                ensure!(pos == ends[k] && rec.t.t == items[k].2.t, "element {} decoded {}\nexpected {}{}", k, show_t(&rec.t.t), show_t(&items[k].2.t), log());
                k += 1;
                if k == items.len() {
                    break;
                }
                next(&items[k - 1].0, &items[k].0, &mut p, by_reset);
                rec = Rec::new(&items[k].0.parts, pause.clone());
            }
        }
    }
    ensure!(k == items.len(), "only {} of {} elements were decoded{}", k, items.len(), log());
    Ok(())
}

fn c15(s: &mut Src, st: &mut Stats) -> Check {
    let n = s.range(1, 3);
    let mut before = vec![];
    for _ in 0..n {
        let (mut plan, wire) = if s.chance(60) { arbitrary(s, st) } else { any_element(s, st, true) };
        let l = if s.chance(190) { s.below(wire.len() + 1) } else { wire.len() };
        let cuts = s.cuts(l);
        let pause = match s.below(3) {
            0 => pause_plan(s, 20),
            _ => Pause::Never,
        };
        // leave after so many slices
        let stop = if s.chance(80) { s.below(cuts.len() + 1) } else { usize::MAX };
        if n > 1 {
            plan.fresh = false;
        }
        before.push((plan, wire[..l].to_vec(), cuts, pause, stop));
    }
    let (mut plan, wire) = if s.chance(30) { arbitrary(s, st) } else { any_element(s, st, true) };
    let dirt = if s.chance(40) { Some((crate::dict::length(s, usize::MAX / 2), boundary(s))) } else { None };
    // without a leading blank, where Parser::new() differs: known finding C15-NEW
    let fresh = plan.mode == Mode::Head && !wire.first().map_or(false, |b| b.is_ascii_whitespace());
    plan.fresh = false;
    // leave the length out sometimes: it must not survive either
    if plan.mode == Mode::Url && s.chance(30) {
        plan.length = None;
    }
    let by_reset = s.chance(128);
    let mut log = String::new();
    let mut p: Parser<Rec> = Parser::new();
    for (plan, w, cuts, pause, stop) in &before {
        log.push_str(&format!("\n before: {}", describe(plan, w, cuts)));
        plan.init(&mut p);
        let mut rec = Rec::new(&plan.parts, pause.clone());
        let sl = slices(w, cuts);
        let k = sl.len().min(*stop);
        let mut taken = 0;
        let end = feed(&mut p, &mut rec, &sl[..k], false, &mut |h: &mut Rec| std::mem::replace(&mut h.paused, false), &mut taken, &mut |_, _| {});
        st.class(match end {
            End::More => "interrupted in the middle",
            End::Finished => "interrupted after a finish",
            _ => "interrupted after an error",
        });
    }
    let last_mode = before.last().unwrap().0.mode;
    // what is set for another element is forgotten too
    if let Some((l, ref b)) = dirt {
        st.class("other settings before");
        p.set_length(l);
        p.set_boundary(b);
        log.push_str(&format!("\n then set_length({}) and set_boundary({})", l, show(b)));
    }
    let count = p.byte_count();
    if by_reset && last_mode == plan.mode {
        st.class("reset()");
        p.reset();
        if let Some(ref b) = plan.boundary {
            p.set_boundary(b);
        }
        if let Some(l) = plan.length {
            p.set_length(l);
        }
    } else {
        if by_reset {
            p.reset();
        }
        plan.init(&mut p);
    }
    ensure!(p.byte_count() == count, "byte_count {} became {} by initialisation{}", count, p.byte_count(), log);
    let mut fresh_parser: Parser<Rec> = Parser::new();
    plan.init(&mut fresh_parser);
    ensure!(p.state() == fresh_parser.state(), "state {:?} instead of {:?}{}", p.state(), fresh_parser.state(), log);
    let cuts = s.cuts(wire.len());
    let sl = slices(&wire, &cuts);
    let pause = if s.chance(100) { pause_plan(s, 20) } else { Pause::Never };
    let got = run_on(&mut p, &mut Rec::new(&plan.parts, pause.clone()), &sl, true);
    let want = run_on(&mut fresh_parser, &mut Rec::new(&plan.parts, pause.clone()), &sl, true);
    st.runs += 3;
    st.nontrivial(!wire.is_empty(), &wire);
    st.sample(|| format!("{}\n then {}", log, describe(&plan, &wire, &cuts)));
    ensure!(
        got.end == want.end && got.t == want.t && got.count == want.count && got.pauses == want.pauses,
        "re-initialised: {}\n fresh: {}{}\n then {}", got.show(), want.show(), log, describe(&plan, &wire, &cuts)
    );
    if fresh {
        let mut f = plan.clone();
        f.fresh = true;
        let new = run_with(&f, &mut Rec::new(&[], pause), &sl, true);
        ensure!(
            new.end == got.end && new.t == got.t && new.count == got.count,
            "re-initialised: {}\n Parser::new(): {}{}\n then {}", got.show(), new.show(), log, describe(&plan, &wire, &cuts)
        );
    }
    Ok(())
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum O {
    Start,
    Method,
    Url,
    ReqVersion,
    RespVersion,
    Code,
    Status,
    Initial,
    Name,
    Value,
    Headers,
    Begin,
    Length,
    ExtName,
    ExtValue,
    ExtDone,
    ExtsDone,
    Data,
    PartBegin,
    PartData,
    PairBegin,
    PairName,
    PairValue,
    Body,
}

/// The order that callbacks have to keep, whatever the input.
fn order(plan: &Plan, raw: &[(u16, u64)], end: &End) -> Check {
    use self::O::*;
    let mut o = Start;
    let mut left: u64 = 0;
    let mut len: u64 = 0;
    for (i, &(tag, n)) in raw.iter().enumerate() {
        let bad = |why: &str| Err(format!("callback {} ({}) after {:?}{}", i, TAGS[(tag - 0x100) as usize], o, why));
        // data callbacks deliver at least one byte, except an empty header value
        if n == 0 && matches!(tag, METHOD | URL | STATUS | HEADER_NAME | EXT_NAME | EXT_VALUE | CHUNK_DATA | PART_DATA | URL_NAME | URL_VALUE) {
            // tolerated: reports nothing
            continue;
        }
        let header_ok = |o: O, first_value: bool| match plan.mode {
            Mode::Head => matches!(o, Initial | Value) || first_value && o == Initial,
            Mode::Chunked => len == 0 && matches!(o, Length | ExtsDone | Value),
            Mode::Multipart => matches!(o, PartBegin | Value),
            Mode::Url => false,
        };
        o = match tag {
            METHOD if o == Start || o == Method => Method,
            URL if o == Method || o == Url => Url,
            VERSION if o == Url => ReqVersion,
            VERSION if o == Start => RespVersion,
            STATUS_CODE if o == RespVersion => Code,
            STATUS if o == Code || o == Status => Status,
            INITIAL_FINISHED if matches!(o, ReqVersion | Code | Status) => Initial,
            HEADER_NAME if o == Name || header_ok(o, false) => Name,
            // a first line that starts with white space is a value without a name, and so may be
            // a field with an empty name (see DESIGN.md)
            HEADER_VALUE if o == Name || o == Value || header_ok(o, true) => Value,
            HEADERS_FINISHED if header_ok(o, false) => Headers,
            CHUNK_BEGIN if o == Start || o == Data && left == 0 => Begin,
            CHUNK_LENGTH if o == Begin => {
                len = n;
                left = n;
                Length
            }
            EXT_NAME if matches!(o, Length | ExtName | ExtDone) => ExtName,
            EXT_VALUE if matches!(o, Length | ExtName | ExtDone | ExtValue) => ExtValue,
            EXT_FINISHED if matches!(o, Length | ExtName | ExtValue | ExtDone) => ExtDone,
            EXTS_FINISHED if matches!(o, Length | ExtDone) => ExtsDone,
            CHUNK_DATA if len > 0 && matches!(o, ExtsDone | Data) => {
                if n > left {
                    return bad(&format!(": {} bytes of data with {} left", n, left));
                }
                left -= n;
                Data
            }
            PART_BEGIN if matches!(o, Start | Headers | PartData) => PartBegin,
            PART_DATA if matches!(o, Headers | PartData) => PartData,
            URL_BEGIN if matches!(o, Start | PairBegin | PairName | PairValue) => PairBegin,
            URL_NAME if matches!(o, PairBegin | PairName) => PairName,
            URL_VALUE if matches!(o, PairBegin | PairName | PairValue) => PairValue,
            BODY_FINISHED if plan.mode == Mode::Chunked && o == Headers => Body,
            BODY_FINISHED if plan.mode == Mode::Multipart && matches!(o, Start | Headers | PartData) => Body,
            BODY_FINISHED if plan.mode == Mode::Url && matches!(o, Start | PairBegin | PairName | PairValue) => Body,
            _ => return bad(""),
        };
    }
    let complete = match plan.mode {
        Mode::Head => o == Headers,
        _ => o == Body,
    };
    if (*end == End::Finished) != complete {
        return Err(format!("{:?} although the last callback is {:?}", end, o));
    }
    Ok(())
}

fn c16(s: &mut Src, st: &mut Stats) -> Check {
    let (plan, wire) = if s.chance(60) { arbitrary(s, st) } else { any_element(s, st, true) };
    let tail = s.bulk(9);
    for i in 0..3 {
        let cuts = if i == 0 { vec![] } else { s.cuts(wire.len()) };
        let pause = if i == 2 { pause_plan(s, 30) } else { Pause::Never };
        let mut rec = Rec::new(&plan.parts, pause);
        rec.raw = Some(vec![]);
        let mut p: Parser<Rec> = Parser::new();
        plan.init(&mut p);
        let out = run_on(&mut p, &mut rec, &slices(&wire, &cuts), false);
        st.runs += 1;
        if let End::Bad(ref m) = out.end {
            return Err(format!("{}\n {}", m, describe(&plan, &wire, &cuts)));
        }
        let raw = rec.raw.take().unwrap();
        if i == 0 {
            class_end(st, &out.end);
            st.nontrivial(raw.len() > 3, &wire);
        }
        order(&plan, &raw, &out.end).map_err(|m| format!("{}: {}\n {}", m, out.show(), describe(&plan, &wire, &cuts)))?;
        if out.end != End::More {
            rec.raw = Some(vec![]);
            for t in [&tail[..], b"", b"GET / HTTP/1.1\r\n\r\n"] {
                let _ = p.resume(&mut rec, t);
            }
            ensure!(
                rec.raw.as_ref().unwrap().is_empty(),
                "callback {} after {:?}\n {}", TAGS[(rec.raw.as_ref().unwrap()[0].0 - 0x100) as usize], out.end, describe(&plan, &wire, &cuts)
            );
        }
    }
    st.sample(|| describe(&plan, &wire, &[]));
    Ok(())
}

fn c17_h1(s: &mut Src, st: &mut Stats) -> Check {
    let (plan, mut wire) = if s.chance(40) { arbitrary(s, st) } else { any_element(s, st, true) };
    if s.chance(100) && !wire.is_empty() {
        // make an error likely
        let i = s.below(wire.len());
        wire[i] = *s.pick(&[0u8, 0x7F, b'\n', 1]);
    }
    let cuts = if s.chance(128) { vec![] } else { s.cuts(wire.len()) };
    let mut rec = Rec::new(&plan.parts, if s.chance(60) { Pause::Always } else { Pause::Never });
    let mut p: Parser<Rec> = Parser::new();
    plan.init(&mut p);
    let out = run_on(&mut p, &mut rec, &slices(&wire, &cuts), false);
    st.runs += 1;
    class_end(st, &out.end);
    st.sample(|| format!("{:?}: {}", out.end, describe(&plan, &wire, &cuts)));
    let info = |what: String| format!("{}\n after {}\n {}", what, out.show(), describe(&plan, &wire, &cuts));
    match out.end {
        End::Bad(ref m) => return Err(info(m.clone())),
        End::More => {
            ensure!(p.state() != ParserState::Dead && p.state() != ParserState::Finished, "{}", info(format!("state {:?} while more is expected", p.state())));
            return Ok(());
        }
        _ => {}
    }
    let dead = out.end != End::Finished;
    st.nontrivial(true, &wire);
    let state = if dead { ParserState::Dead } else { ParserState::Finished };
    let before = (rec.t.t.clone(), rec.callbacks, p.byte_count());
    ensure!(p.state() == state, "{}", info(format!("state {:?}", p.state())));
    let n = s.range(1, 5);
    for _ in 0..n {
        let next = match s.below(5) {
            0 => vec![],
            1 => {
                let n = s.len(60);
                s.bytes(n)
            }
            2 => wire.clone(),
            3 => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
            _ => any_element(s, st, false).1,
        };
        // neither of these is a reset
        match s.below(6) {
            0 => p.set_length(*s.pick(&[0, 1, 20, 1 << 40])),
            1 => p.set_boundary(b"next"),
            _ => (),
        }
        let r = p.resume(&mut rec, &next);
        let ok = match r {
            Ok(Success::Finished(0)) => !dead,
            Err(ref e) => dead && kind(e).0 == Kind::Dead,
            _ => false,
        };
        ensure!(ok, "{}", info(format!("a later call with {} gives {:?}", show(&next), r)));
        ensure!(
            rec.callbacks == before.1 && rec.t.t == before.0,
            "{}", info(format!("a later call with {} reports {}", show(&next), show_t(&rec.t.t)))
        );
        ensure!(p.byte_count() == before.2, "{}", info(format!("a later call counts bytes: {} became {}", before.2, p.byte_count())));
        ensure!(p.state() == state, "{}", info(format!("state {:?} after a later call", p.state())));
    }
    // and it can be used again
    let m = head(s);
    p.init_head();
    let again = run_on(&mut p, &mut Rec::new(&[], Pause::Never), &[&m.wire], false);
    ensure!(
        again.end == End::Finished && again.t == m.t.t,
        "{}", info(format!("after init_head {} gives {}", show(&m.wire), again.show()))
    );
    Ok(())
}

fn c17(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(60) {
        st.class("http2");
        super::h2p::terminal(s, st)
    } else {
        st.class("http1");
        c17_h1(s, st)
    }
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, quick, thorough, rule| {
        v.push(Prop { id, f, enumerated: 0, e: no_enum, long: 0, l: no_enum, quick, thorough, rule })
    };
    add("C01", c01, 4_000_000, 240_000_000, "A request head is built from random tokens (known methods and near misses, any visible URL, versions 0.0-999.999, header lists with folding, quoting and 8-bit bytes), fed in one slice with and without bytes after it, in a random partition and cut off; the callbacks must equal the parts it was built from; also with pauses and on a parser used before. Every head is non-trivial.");
    add("C02", c02, 3_600_000, 216_000_000, "A response head (or, in a quarter of the cases, a request whose method shares a prefix with HTTP/) is built from random parts and must decode to them; also with pauses and on a parser used before. Every head is non-trivial.");
    add("C03", c03, 2_500_000, 150_000_000, "One to four header fields (25 well-known names in any capitalisation, near misses, any token; values with folding, quoted strings, escapes, 8-bit bytes) in a request, response, multipart part or trailer must decode to their parts, in two capitalisations. Enumerated on top: all well-known names x 3 capitalisations x 40 value lengths x all two-way cuts; also with pauses and on a parser used before. Every case is non-trivial.");
    add("C04", c04, 400_000, 24_000_000, "A head, in 60% of the cases changed by one to five mutations, is fed in one slice, byte by byte, in every cut into two and in four random partitions with empty slices; transcripts, outcome, error byte and byte count must agree, also after every slice. Non-trivial: more than one byte.");
    add("C05", c05, 260_000, 15_600_000, "As C04 for chunked, multipart and URL-encoded bodies (error kind only). Non-trivial: more than one byte.");
    add("C06", c06, 1_000_000, 60_000_000, "A chunked body is built from random chunks (1 to 1.2 MB), extensions and trailers, and must decode to them; also lengths up to 8 hex digits with a part of their data; also with pauses and on a parser used before. Non-trivial: at least one chunk, extension or trailer.");
    add("C07", c07, 1_500_000, 90_000_000, "A multipart body is built from random parts whose data is made of delimiter prefixes, near misses and line ends, with and without content length, and must decode to them in several partitions; also with pauses and on a parser used before. Non-trivial: at least one part.");
    add("C08", c08, 1_100_000, 66_000_000, "Random pairs of any bytes in a random encoding, any declared length, any bytes after; also with pauses and on a parser used before. Non-trivial: body not empty.");
    add("C09", c09, 360_000, 21_600_000, "A head is changed at random places (in 40% of the cases one position takes all 256 values) and compared with a reference automaton: outcome, error kind, offending byte, elements before it. Enumerated on top: in every state of the parser (and after every beginning of 28 heads that together visit them) each byte, and after each acceptable one every other byte (after the other beginnings 24 of them, thorough all), in one slice and cut. Non-trivial: the automaton rejects it.");
    add("C10", c10, 210_000, 12_600_000, "As C09 for the three kinds of bodies, with enumerations over 20 of them. Non-trivial: the automaton rejects it.");
    add("C11", c11, 1_200_000, 72_000_000, "An element, valid or mutated, with pauses at all callbacks, at kinds of callbacks, at random ones and at each single one, in several partitions, against the run without pauses; and a handler without callbacks. Non-trivial: at least one callback.");
    add("C12", c12, 680_000, 40_800_000, "Arbitrary bytes, token soup and mutated elements in all modes, partitions, pauses, boundaries and lengths; built with overflow and unchecked-access checks. Non-trivial: more than one byte.");
    add("C13", c13, 180_000, 10_800_000, "Up to four elements on one parser with pauses, early stops, mode changes and resets; every count is compared with the bytes taken. Non-trivial: bytes were taken.");
    add("C14", c14, 1_000_000, 60_000_000, "A connection of two to six heads with bodies, cut anywhere; each element must end at its own end and decode to what was sent. Every case is non-trivial.");
    add("C15", c15, 1_200_000, 72_000_000, "One to three elements are abandoned at a random point of a random history, the parser is re-initialised and must behave as a new one on another element. Non-trivial: that element is not empty.");
    add("C16", c16, 3_000_000, 180_000_000, "The order of all callbacks for arbitrary and mutated inputs is checked by an automaton of allowed successions. Non-trivial: more than three callbacks.");
    add("C17", c17, 3_000_000, 180_000_000, "Up to five calls after an error or finish, with any bytes, sometimes behind set_length() or set_boundary(), then re-initialisation. Non-trivial: the first input ended in an error or finish.");
    let p = v.iter_mut().find(|p| p.id == "C03").unwrap();
    p.enumerated = 75;
    p.e = c03_enum;
    for (id, e) in [("C09", c09_enum as fn(u64, &mut Stats) -> Check), ("C10", c10_enum)] {
        let p = v.iter_mut().find(|p| p.id == id).unwrap();
        p.enumerated = ELEMENT_STARTS;
        p.e = e;
    }
}
