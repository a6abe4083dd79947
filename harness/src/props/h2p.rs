//! Properties of the HTTP/2 parser and its typed values.

use super::{no_enum, Prop};
use crate::ensure;
use crate::mem;
use crate::h1gen::mutate;
use crate::h2::*;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Rng, Src};
use http_box::fsm::Success;
use http_box::http2::{ErrorCode, Flags, FrameFormat, FrameType, Parser, ParserState, Setting};

pub fn describe(wire: &[u8], cuts: &[usize]) -> String {
    let c = if cuts.len() > 40 { format!("{:?}... ({} cuts)", &cuts[..40], cuts.len()) } else { format!("{:?}", cuts) };
    format!("frames ({} bytes) {:02x?}{}; cut at {}", wire.len(), &wire[..wire.len().min(400)], if wire.len() > 400 { "..." } else { "" }, c)
}

fn all_cuts(n: usize) -> Vec<usize> {
    (0..=n).collect()
}

fn first_difference(a: &[u64], b: &[u64]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    // back to a tag
    let mut k = i.min(a.len()).min(b.len());
    while k > 0 && (k >= a.len() || k >= b.len() || a[k] < TAG) {
        k -= 1;
    }
    format!(
        "reported ...{}\n expected ...{}",
        show_t(&a[k..a.len().min(i + 300).max(k)]),
        show_t(&b[k..b.len().min(i + 300).max(k)])
    )
}

fn expect(wire: &[u8], cuts: &[usize], want: &[u64], st: &mut Stats) -> Check {
    let out = run(&slices(wire, cuts));
    st.runs += 1;
    ensure!(out.end == End::More, "{:?}: {}\n expected {}\n {}", out.end, out.show(), show_t(want), describe(wire, cuts));
    ensure!(out.t == want, "{}\n {}", first_difference(&out.t, want), describe(wire, cuts));
    ensure!(
        out.count == wire.len() && out.taken == wire.len(),
        "{} bytes taken, byte_count {}, of {}\n {}", out.taken, out.count, wire.len(), describe(wire, cuts)
    );
    ensure!(out.state == ParserState::FrameLength1, "state {:?} after the last frame\n {}", out.state, describe(wire, cuts));
    Ok(())
}

/// With pauses or on a used and reset parser, or both, in a random partition.
fn expect_history(s: &mut Src, st: &mut Stats, m: &Stream) -> Check {
    let mut p: Parser<Rec> = Parser::new();
    let mut log = String::new();
    if s.chance(150) {
        let n = s.range(1, 3);
        for _ in 0..n {
            let mut before = Stream::default();
            frame(s, &mut before, false);
            let l = match s.below(3) {
                0 => before.wire.len(),
                1 => s.below(before.wire.len() + 1),
                _ => s.below(before.wire.len().min(24) + 1),
            };
            let w = &before.wire[..l];
            let _ = run_on(&mut p, &mut Rec::new(Pause::Never), &[w], false);
            p.reset();
            log.push_str(&format!("\n after a reset after {}", describe(w, &[])));
        }
        st.class("on a used parser");
    }
    let pause = if s.chance(170) { pause_plan(s, 12) } else { Pause::Never };
    if !matches!(pause, Pause::Never) {
        st.class("with pauses");
        log.push_str(&format!("\n {}", show_pause(&pause)));
    }
    let cuts = if s.chance(128) { vec![] } else { s.cuts(m.wire.len()) };
    let (out, _) = run_on(&mut p, &mut Rec::new(pause), &slices(&m.wire, &cuts), false);
    st.runs += 1;
    ensure!(
        out.end == End::More && out.t == m.t.t && out.count == m.wire.len() && out.taken == m.wire.len(),
        "{:?}, {} bytes taken, byte_count {}, of {}\n {}\n {}{}",
        out.end, out.taken, out.count, m.wire.len(), first_difference(&out.t, &m.t.t), describe(&m.wire, &cuts), log
    );
    ensure!(out.state == ParserState::FrameLength1, "state {:?} after the last frame\n {}{}", out.state, describe(&m.wire, &cuts), log);
    Ok(())
}

fn classes(m: &Stream, st: &mut Stats) {
    const NAMES: [&str; 11] = [
        "DATA", "HEADERS", "PRIORITY", "RST_STREAM", "SETTINGS", "PUSH_PROMISE", "PING", "GO_AWAY", "WINDOW_UPDATE",
        "CONTINUATION", "unknown type",
    ];
    for (i, n) in NAMES.iter().enumerate() {
        st.class_if(m.types >> i & 1 == 1, n);
    }
    st.class_if(m.padded > 0, "padded");
    st.class_if(m.empty > 0, "empty payload");
    st.class_if(m.big, "payload over 1000 bytes");
}

fn c20(s: &mut Src, st: &mut Stats) -> Check {
    let m = stream(s, 8, true);
    classes(&m, st);
    st.nontrivial(true, &m.wire);
    st.sample(|| format!("{:02x?}", &m.wire[..m.wire.len().min(200)]));
    expect(&m.wire, &[], &m.t.t, st)?;
    let cuts = s.cuts(m.wire.len());
    expect(&m.wire, &cuts, &m.t.t, st)?;
    if s.chance(100) {
        expect_history(s, st, &m)?;
    }
    // the first part of a stream
    let n = s.below(m.wire.len());
    let cut = run(&[&m.wire[..n]]);
    ensure!(
        cut.end == End::More && cut.count == n && m.t.t.starts_with(&cut.t),
        "the first {} bytes: {}\n all of them: {}\n {}", n, cut.show(), show_t(&m.t.t), describe(&m.wire, &[])
    );
    if s.chance(8) {
        // a length that is too long for its payload to be sent
        let len = 1 << 20 | s.u32() as usize & 0xFFFFFF;
        let ty = *s.pick(&[0u8, 9, 7, 200]);
        let mut m = Stream::default();
        m.wire.extend_from_slice(&head(len, ty, 0, 5));
        m.t.nums(FRAME, &[len as u64, ty as u64, 0, 5]);
        if ty == 7 {
            m.wire.extend_from_slice(&[0, 0, 0, 3, 0, 0, 0, 2]);
            m.t.nums(GO_AWAY, &[3, 2]);
        }
        let n = s.below(3000);
        let d = s.bulk(n);
        m.wire.extend_from_slice(&d);
        if n > 0 {
            m.t.data(match ty { 0 => DATA, 9 => FRAGMENT, 7 => DEBUG_DATA, _ => UNSUPPORTED }, &d, false);
        }
        let cuts = s.cuts(m.wire.len());
        for cuts in [&cuts[..], &[]] {
            let out = run(&slices(&m.wire, cuts));
            ensure!(
                out.end == End::More && out.t == m.t.t && out.count == m.wire.len(),
                "{}\n {}\n {}", out.show(), first_difference(&out.t, &m.t.t), describe(&m.wire, cuts)
            );
        }
        st.class("huge declared length");
    }
    Ok(())
}

/// All types with all flags, in one slice and in all cuts into two; and payloads of extreme length.
fn c20_enum(i: u64, st: &mut Stats) -> Check {
    if i >= 11 * 256 {
        let (len, pad) = [(0xFFFFFF, 0), (0xFFFFFF, 255), (0x10000, 1), (0x10000, 0), (0x00FFFF, 255), (0xFF0000, 7)][(i - 11 * 256) as usize];
        let mut m = Stream::default();
        let flags = if pad > 0 { PADDED } else { 0 };
        m.wire.extend_from_slice(&head(len, 0, flags, 1));
        m.t.nums(FRAME, &[len as u64, 0, flags as u64, 1]);
        let mut n = len;
        if pad > 0 {
            m.wire.push(pad as u8);
            n -= 1 + pad;
        }
        let d: Vec<u8> = (0..n).map(|i| (i ^ i >> 8 ^ i >> 16) as u8).collect();
        m.wire.extend_from_slice(&d);
        m.wire.extend(std::iter::repeat(0x55).take(pad));
        m.t.data(DATA, &d, true);
        sentinel(&mut m);
        expect(&m.wire, &[], &m.t.t, st)?;
        expect(&m.wire, &[9, 10, 1000, 70000.min(len)], &m.t.t, st)?;
        let cuts: Vec<usize> = (0..m.wire.len() / 65521).map(|k| k * 65521).collect();
        return expect(&m.wire, &cuts, &m.t.t, st);
    }
    let ty = (i / 256) as u8;
    let ty = if ty == 10 { 0xC3 } else { ty };
    let flags = i as u8;
    for seed in 0..3 {
        let mut s = if seed == 0 { Src::replay(&[]) } else { Src::random(i * 3 + seed) };
        let mut m = Stream::default();
        frame_of(&mut s, &mut m, ty, flags, false);
        sentinel(&mut m);
        expect(&m.wire, &[], &m.t.t, st)?;
        expect(&m.wire, &all_cuts(m.wire.len()), &m.t.t, st)?;
        if m.wire.len() < 300 {
            for c in 0..m.wire.len() {
                expect(&m.wire, &[c], &m.t.t, st)?;
            }
        }
    }
    Ok(())
}

/// A stream, valid or changed, or arbitrary bytes.
pub fn any_stream(s: &mut Src, st: &mut Stats) -> Vec<u8> {
    match s.weighted(&[100, 100, 56]) {
        0 => {
            st.class("valid");
            stream(s, 6, false).wire
        }
        1 => {
            let mut w = stream(s, 6, false).wire;
            let n = s.range(1, 4);
            for _ in 0..n {
                st.class(mutate(s, &mut w));
            }
            if s.chance(100) && w.len() > 9 {
                // a wrong length
                w[2] = s.below(20) as u8;
            }
            w
        }
        _ => {
            st.class("arbitrary bytes");
            let mut w = vec![];
            let n = s.range(1, 10);
            for _ in 0..n {
                match s.below(4) {
                    0 => {
                        let n = s.len(100);
                        w.extend(s.bytes(n));
                    }
                    1 => {
                        let len = match s.below(4) {
                            0 => s.below(20),
                            1 => s.below(300),
                            2 => 0,
                            _ => s.u32() as usize & 0xFFFFFF,
                        };
                        w.extend_from_slice(&head(len, s.below(12) as u8, *s.pick(&[0, 8, 0x28, 0x20, 0xFF]), 1));
                    }
                    2 => {
                        let n = s.below(300);
                        w.extend(s.bulk(n));
                    }
                    _ => w.push(s.byte()),
                }
            }
            w
        }
    }
}

fn class_end(st: &mut Stats, e: &End) {
    st.class(match *e {
        End::More => "outcome: all taken",
        End::Err => "outcome: error",
        End::Bad(_) => "outcome: bad",
    });
}

/// Payloads that do not fit into 16 bits, cut anywhere: each partition decodes to the frames sent.
fn c21_big(s: &mut Src, st: &mut Stats) -> Check {
    let mut m = Stream::default();
    for _ in 0..s.range(1, 2) {
        let n = *s.pick(&[65536usize, 65535, 65537, 70000, 131072, 131073, 200000]) + s.below(40);
        let d = s.bulk(n);
        let ty = *s.pick(&[0u8, 1, 9, 11, 5, 7]);
        let mut body = vec![];
        let mut nums = None;
        match ty {
            5 => {
                body.extend_from_slice(&[0, 0, 1, 2]);
                nums = Some((PUSH_PROMISE, vec![0x102]));
            }
            7 => {
                body.extend_from_slice(&[0, 0, 1, 2, 0, 0, 0, 3]);
                nums = Some((GO_AWAY, vec![0x102, 3]));
            }
            _ => (),
        }
        body.extend_from_slice(&d);
        m.wire.extend_from_slice(&head(body.len(), ty, 4, 3));
        m.t.nums(FRAME, &[body.len() as u64, ty as u64, 4, 3]);
        if let Some((tag, v)) = nums {
            m.t.nums(tag, &v);
        }
        m.t.data(match ty { 0 => DATA, 7 => DEBUG_DATA, 11 => UNSUPPORTED, _ => FRAGMENT }, &d, true);
        m.wire.extend_from_slice(&body);
    }
    sentinel(&mut m);
    st.class("payload over 65535 bytes");
    st.nontrivial(true, &m.wire[..40]);
    expect(&m.wire, &[], &m.t.t, st)?;
    for _ in 0..4 {
        let a = s.below(m.wire.len());
        let b = 65536 + s.below(40);
        let mut cuts = vec![a, (a + b).min(m.wire.len()), s.below(m.wire.len())];
        cuts.sort_unstable();
        expect(&m.wire, &cuts, &m.t.t, st)?;
    }
    let cuts = s.cuts(m.wire.len());
    expect(&m.wire, &cuts, &m.t.t, st)
}

fn c21(s: &mut Src, st: &mut Stats) -> Check {
    if s.weighted(&[2999, 1]) == 1 {
        return c21_big(s, st);
    }
    let mut wire = any_stream(s, st);
    if wire.len() > 600 && !s.chance(10) {
        wire.truncate(600);
    }
    let base = run(&[&wire]);
    st.runs += 1;
    class_end(st, &base.end);
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| describe(&wire, &[]));
    if let End::Bad(ref m) = base.end {
        return Err(format!("{}\n {}", m, describe(&wire, &[])));
    }
    let same = |out: Out, cuts: &[usize]| -> Check {
        ensure!(
            out.end == base.end && out.t == base.t && out.count == base.count,
            "one slice: {:?}, {} bytes; in pieces: {:?}, {} bytes\n {}\n {}",
            base.end, base.count, out.end, out.count, first_difference(&out.t, &base.t), describe(&wire, cuts)
        );
        Ok(())
    };
    let cuts = all_cuts(wire.len());
    let (lens, steps) = run_steps(&slices(&wire, &cuts));
    st.runs += 1;
    if wire.len() <= 400 {
        for k in 1..lens.len().min(wire.len() + 1) {
            let (one, o) = run_steps(&[&wire[..k]]);
            st.runs += 1;
            if o.end != End::More || one.is_empty() {
                break;
            }
            ensure!(
                one[0] == lens[k] && o.t[..one[0]] == steps.t[..lens[k]],
                "after {} bytes one slice has decoded {}\n and single bytes {}\n {}",
                k, show_t(&o.t), show_t(&steps.t[..lens[k]]), describe(&wire, &[])
            );
        }
    }
    same(steps, &cuts)?;
    if wire.len() <= 300 {
        for c in 0..=wire.len() {
            same(run(&slices(&wire, &[c])), &[c])?;
            st.runs += 1;
        }
    }
    for _ in 0..4 {
        let cuts = s.cuts(wire.len());
        same(run(&slices(&wire, &cuts)), &cuts)?;
        st.runs += 1;
    }
    Ok(())
}

/// One frame of each type with distinct bytes: all partitions into up to four slices of its head
/// and first fields.
fn c21_enum(i: u64, st: &mut Stats) -> Check {
    let ty = (i % 11) as u8;
    let flags = [0, PADDED, PADDED | PRIO, PRIO][(i / 11) as usize];
    let mut s = Src::random(77 + i);
    let mut m = Stream::default();
    for _ in 0..50 {
        m = Stream::default();
        frame_of(&mut s, &mut m, ty, flags, false);
        if m.wire.len() < 60 {
            break;
        }
    }
    sentinel(&mut m);
    let n = m.wire.len().min(34);
    for a in 0..n {
        for b in a..n {
            for c in b..n {
                expect(&m.wire, &[a, b, c], &m.t.t, st)?;
            }
        }
    }
    Ok(())
}

pub fn pause_plan(s: &mut Src, callbacks: usize) -> Pause {
    match s.weighted(&[60, 60, 60, 70]) {
        0 => Pause::Always,
        1 => Pause::Kinds(s.u32() & s.u32()),
        2 => Pause::Random(Rng(s.byte() as u64), *s.pick(&[128, 20, 60, 200])),
        _ => {
            let n = s.range(1, 3);
            Pause::Nth((0..n).map(|_| s.below(callbacks.max(1))).collect())
        }
    }
}

fn show_pause(p: &Pause) -> String {
    match *p {
        Pause::Never => "no pause".into(),
        Pause::Always => "pause at every callback".into(),
        Pause::Kinds(k) => format!("pause at {:?}", (0..13).filter(|i| k >> i & 1 == 1).map(|i| TAGS[i]).collect::<Vec<_>>()),
        Pause::Random(_, p) => format!("pause at {} of 256 callbacks", p),
        Pause::Nth(ref v) => format!("pause at callbacks {:?}", v),
    }
}

fn c22(s: &mut Src, st: &mut Stats) -> Check {
    let wire = any_stream(s, st);
    let base = run(&[&wire]);
    st.runs += 1;
    class_end(st, &base.end);
    st.nontrivial(base.callbacks > 0, &wire);
    st.sample(|| describe(&wire, &[]));
    let same = |out: Out, pause: &Pause, cuts: &[usize]| -> Check {
        if let End::Bad(ref m) = out.end {
            return Err(format!("{} ({})\n {}", m, show_pause(pause), describe(&wire, cuts)));
        }
        ensure!(
            out.end == base.end && out.t == base.t && out.count == base.count && out.taken <= out.count,
            "without pause: {:?}, {} bytes; with ({}): {:?}, {} bytes\n {}\n {}",
            base.end, base.count, show_pause(pause), out.end, out.count, first_difference(&out.t, &base.t), describe(&wire, cuts)
        );
        ensure!(
            out.end != End::More || out.taken == base.taken,
            "{} bytes taken with ({}), {} without\n {}", out.taken, show_pause(pause), base.taken, describe(&wire, cuts)
        );
        Ok(())
    };
    for i in 0..4 {
        let pause = if i == 0 { Pause::Always } else { pause_plan(s, base.callbacks) };
        let poke = s.chance(100);
        let cuts = if i == 1 { vec![] } else { s.cuts(wire.len()) };
        let out = run_with(&mut Rec::new(pause.clone()), &slices(&wire, &cuts), poke);
        st.runs += 1;
        st.class_if(out.pauses > 0, "paused at least once");
        same(out, &pause, &cuts)?;
    }
    if base.callbacks <= 60 {
        for n in 0..base.callbacks {
            let pause = Pause::Nth(vec![n]);
            let out = run_with(&mut Rec::new(pause.clone()), &[&wire], false);
            st.runs += 1;
            ensure!(out.pauses == 1, "{} pauses\n {}", out.pauses, describe(&wire, &[]));
            same(out, &pause, &[])?;
        }
    }
    // a pause takes exactly the bytes of what was reported: the rest gives the rest
    let cuts = s.cuts(wire.len());
    for cuts in [&cuts[..], &[]] {
        let (end, count, taken) = run_noop(&slices(&wire, cuts));
        st.runs += 1;
        ensure!(
            end == base.end && count == base.count && (end == End::Err || taken == base.taken),
            "handler without callbacks: {:?} after {} ({}) bytes, with callbacks: {:?} after {} ({})\n {}",
            end, taken, count, base.end, base.taken, base.count, describe(&wire, cuts)
        );
    }
    Ok(())
}

fn c23(s: &mut Src, st: &mut Stats) -> Check {
    let mut wire = any_stream(s, st);
    if s.chance(10) {
        let n = s.range(1000, 70000);
        wire.extend(s.bulk(n));
    }
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| describe(&wire, &[]));
    for i in 0..4 {
        let cuts = match i {
            0 => vec![],
            1 => all_cuts(wire.len().min(5000)),
            _ => s.cuts(wire.len()),
        };
        let pause = if i > 1 { pause_plan(s, wire.len()) } else { Pause::Never };
        let mut rec = Rec::new(pause);
        let out = mem::fenced(&slices(&wire, &cuts), i == 3, |sl| run_with(&mut rec, sl, i == 3));
        st.runs += 1;
        if i == 0 {
            class_end(st, &out.end);
        }
        if let End::Bad(ref m) = out.end {
            return Err(format!("{}\n {}", m, describe(&wire, &cuts)));
        }
        ensure!(!rec.over, "more payload reported than declared: {}\n {}", out.show(), describe(&wire, &cuts));
        ensure!(
            out.count <= wire.len() && out.taken <= out.count && (out.end == End::Err || out.count == wire.len()),
            "{:?}, {} bytes taken (byte_count {}) of {}\n {}", out.end, out.taken, out.count, wire.len(), describe(&wire, &cuts)
        );
        ensure!(rec.data_bytes <= wire.len(), "{} bytes of data reported\n {}", rec.data_bytes, describe(&wire, &cuts));
        ensure!((out.state == ParserState::Dead) == (out.end == End::Err), "state {:?} after {:?}\n {}", out.state, out.end, describe(&wire, &cuts));
    }
    Ok(())
}

fn c24(s: &mut Src, st: &mut Stats) -> Check {
    // mostly frames with padding and empty payloads, back to back
    let mut m = Stream::default();
    let n = s.range(2, 12);
    let mut ends = vec![];
    for _ in 0..n {
        if s.chance(160) {
            let ty = *s.pick(&[0u8, 1, 5, 10, 0x7F]);
            let flags = PADDED | *s.pick(&[0, PRIO, 1, 4, 0xFF]);
            if s.chance(60) {
                // nothing but padding
                let pad = *s.pick(&[0usize, 1, 2, 9, 254, 255, 128]);
                let ty = *s.pick(&[0u8, 10]);
                m.wire.extend_from_slice(&head(1 + pad, ty, flags, 3));
                m.wire.push(pad as u8);
                let seed = s.byte();
                m.wire.extend(std::iter::repeat(seed).take(pad));
                m.t.nums(FRAME, &[1 + pad as u64, ty as u64, flags as u64, 3]);
                m.t.data(if ty == 0 { DATA } else { UNSUPPORTED }, b"", true);
                m.frames += 1;
                m.padded += 1;
                m.empty += 1;
                m.types |= 1 << ty;
            } else {
                frame_of(s, &mut m, ty, flags, true);
            }
        } else {
            frame(s, &mut m, true);
        }
        ends.push((m.wire.len(), m.t.t.len()));
    }
    sentinel(&mut m);
    classes(&m, st);
    st.nontrivial(m.padded > 0, &m.wire);
    st.sample(|| describe(&m.wire, &[]));
    expect(&m.wire, &[], &m.t.t, st)?;
    let cuts = s.cuts(m.wire.len());
    expect(&m.wire, &cuts, &m.t.t, st)?;
    // cuts at and around the frame borders
    let mut cuts: Vec<usize> = ends.iter().map(|e| (e.0 + s.below(5)).saturating_sub(2)).collect();
    cuts.sort_unstable();
    expect(&m.wire, &cuts, &m.t.t, st)?;
    if s.chance(100) {
        expect_history(s, st, &m)?;
    }
    // after each frame alone, nothing of the next one is needed or taken
    let mut p: Parser<Rec> = Parser::new();
    let mut rec = Rec::new(if s.chance(80) { pause_plan(s, 40) } else { Pause::Never });
    let mut pos = 0;
    for &(e, l) in &ends {
        let mut taken = 0;
        let end = feed(&mut p, &mut rec, &[&m.wire[pos..e]], false, &mut rec_paused, &mut taken, &mut |_, _| {});
        pos = e;
        ensure!(end == End::More && p.byte_count() == e, "{:?} and byte_count {} at the frame end {}\n {}", end, p.byte_count(), e, describe(&m.wire, &[]));
        let got = &rec.t.t;
        // an empty payload may be reported with the next byte
        let deferred = l >= 2 && m.t.t[l - 1] == FIN && m.t.t[l - 2] >= TAG;
        let push = l >= 4 && deferred && m.t.t[l - 4] == PUSH_PROMISE;
        ensure!(
            got[..] == m.t.t[..l] || deferred && got[..] == m.t.t[..l - 2] || push && got[..] == m.t.t[..l - 4],
            "at the frame end {}: {}\n {}", e, first_difference(got, &m.t.t[..l]), describe(&m.wire, &[])
        );
    }
    st.runs += 1;
    Ok(())
}

/// A frame that is too short, and the transcripts allowed for it.
struct Short {
    wire: Vec<u8>,
    t: Vec<u64>,
    /// may follow
    extra: Vec<u64>,
    kind: &'static str,
}

fn short(s: &mut Src) -> Short {
    let raw_sid = sid31(s);
    let sid = (raw_sid & 0x7FFF_FFFF) as u64;
    let mut body = vec![];
    let mut extra = vec![];
    let (ty, flags, len, kind);
    let any = s.byte();
    if s.chance(128) {
        kind = "fields do not fit";
        let (t, f, min): (u8, u8, usize) = *s.pick(&[
            (0, PADDED, 1), (1, PADDED, 1), (1, PRIO, 5), (1, PADDED | PRIO, 6), (2, 0, 5), (3, 0, 4), (4, 0, 6),
            (5, 0, 4), (5, PADDED, 5), (7, 0, 8), (8, 0, 4), (10, PADDED, 1),
        ]);
        ty = if t == 10 { s.range(10, 255) as u8 } else { t };
        // other flags do not matter
        let care = match t {
            1 => PADDED | PRIO,
            0 | 5 | 10 => PADDED,
            _ => 0,
        };
        flags = f | any & !care;
        len = if ty == 4 { s.range(1, min - 1) } else { s.below(min) };
        if care & f & PADDED != 0 && s.chance(128) {
            // a pad length that fits or not
            body.push(s.below(3) as u8);
        }
        while body.len() < len {
            body.push(s.byte());
        }
        body.truncate(len);
    } else {
        kind = "padding does not fit";
        let (t, f, fields): (u8, u8, usize) = *s.pick(&[(0, PADDED, 0), (1, PADDED, 0), (1, PADDED | PRIO, 5), (5, PADDED, 4), (10, PADDED, 0)]);
        ty = if t == 10 { s.range(10, 255) as u8 } else { t };
        let care = if t == 1 { PADDED | PRIO } else { PADDED };
        flags = f | any & !care;
        let room = match s.below(3) {
            0 => 0,
            1 => s.below(10),
            _ => s.below(255),
        };
        let pad = match s.below(3) {
            0 => room + 1,
            1 => 255,
            _ => s.range(room + 1, 255),
        };
        len = 1 + fields + room;
        body.push(pad as u8);
        let fl = s.bytes(fields);
        body.extend_from_slice(&fl);
        body.extend(s.bulk(room));
        if t == 1 {
            extra = vec![HEADERS, 0, 0, 0];
            if f & PRIO != 0 {
                let d = (fl[0] as u64) << 24 | (fl[1] as u64) << 16 | (fl[2] as u64) << 8 | fl[3] as u64;
                extra = vec![HEADERS, d >> 31, d & 0x7FFF_FFFF, fl[4] as u64];
            }
        } else if t == 5 {
            let d = (fl[0] as u64) << 24 | (fl[1] as u64) << 16 | (fl[2] as u64) << 8 | fl[3] as u64;
            extra = vec![PUSH_PROMISE, d & 0x7FFF_FFFF];
        }
    }
    let mut wire = head(len, ty, flags, raw_sid);
    wire.extend_from_slice(&body);
    Short { wire, t: vec![FRAME, len as u64, ty as u64, flags as u64, sid], extra, kind }
}

fn check_short(prefix: &Stream, b: &Short, after: &[u8], cuts: &[usize], pause: Pause, st: &mut Stats) -> Check {
    let mut wire = prefix.wire.clone();
    wire.extend_from_slice(&b.wire);
    wire.extend_from_slice(after);
    let mut want = prefix.t.t.clone();
    want.extend_from_slice(&b.t);
    let mut more = want.clone();
    more.extend_from_slice(&b.extra);
    let out = run_with(&mut Rec::new(pause), &slices(&wire, cuts), false);
    st.runs += 1;
    ensure!(
        out.end == End::Err,
        "{}: not rejected: {}\n {}", b.kind, out.show(), describe(&wire, cuts)
    );
    ensure!(
        out.t == want || out.t == more,
        "{}: {}\n {}", b.kind, first_difference(&out.t, &more), describe(&wire, cuts)
    );
    Ok(())
}

fn c25(s: &mut Src, st: &mut Stats) -> Check {
    let mut prefix = Stream::default();
    let n = s.below(4);
    for _ in 0..n {
        frame(s, &mut prefix, false);
    }
    let b = short(s);
    let mut after = Stream::default();
    while after.wire.len() < 300 {
        frame(s, &mut after, false);
        sentinel(&mut after);
    }
    st.class(b.kind);
    st.nontrivial(true, &b.wire);
    st.sample(|| format!("{}: {}", b.kind, describe(&b.wire, &[])));
    let total = prefix.wire.len() + b.wire.len() + after.wire.len();
    check_short(&prefix, &b, &after.wire, &[], Pause::Never, st)?;
    check_short(&prefix, &b, &after.wire, &all_cuts(total), Pause::Never, st)?;
    let cuts = s.cuts(total);
    check_short(&prefix, &b, &after.wire, &cuts, Pause::Never, st)?;
    let start = prefix.wire.len();
    for c in 0..b.wire.len().min(24) + 1 {
        check_short(&prefix, &b, &after.wire, &[start + c], Pause::Never, st)?;
    }
    let pause = pause_plan(s, 10);
    check_short(&prefix, &b, &after.wire, &cuts, pause, st)
}

fn c26(s: &mut Src, st: &mut Stats) -> Check {
    let mut p: Parser<Rec> = Parser::new();
    let mut log = String::new();
    let rounds = s.range(1, 4);
    for _ in 0..rounds {
        // some bytes, perhaps cut short, on a parser that is new or was reset
        let wire = any_stream(s, st);
        let l = if s.chance(190) { s.below(wire.len() + 1) } else { wire.len() };
        let wire = &wire[..l];
        let cuts = s.cuts(l);
        let pause = if s.chance(128) { pause_plan(s, 20) } else { Pause::Never };
        log.push_str(&format!("\n {} ({})", describe(wire, &cuts), show_pause(&pause)));
        ensure!(p.byte_count() == 0, "byte_count {} on a new parser or after reset{}", p.byte_count(), log);
        let mut fresh: Parser<Rec> = Parser::new();
        ensure!(p.state() == fresh.state(), "state {:?} on a new parser or after reset{}", p.state(), log);
        let mut rec = Rec::new(pause.clone());
        let mut total = 0;
        let mut failed = false;
        'slices: for sl in slices(wire, &cuts) {
            let mut sl: &[u8] = sl;
            loop {
                let r = p.resume(&mut rec, sl);
                let paused = std::mem::replace(&mut rec.paused, false);
                match r {
                    Ok(Success::Eos(n)) => {
                        ensure!(n == sl.len() && !paused, "Eos({}) for {} bytes{}", n, sl.len(), log);
                        total += n;
                    }
                    Ok(Success::Callback(n)) => {
                        ensure!(n <= sl.len() && paused, "Callback({}) for {} bytes{}", n, sl.len(), log);
                        total += n;
                        sl = &sl[n..];
                        ensure!(p.byte_count() == total, "byte_count {} after {} bytes (pause){}", p.byte_count(), total, log);
                        st.class("pause");
                        if !sl.is_empty() {
                            continue;
                        }
                    }
                    Ok(Success::Finished(_)) => return Err(format!("finished{}", log)),
                    Err(_) => {
                        let c = p.byte_count();
                        ensure!(c >= total && c - total <= sl.len(), "byte_count grew by {} in a failed call with {} bytes{}", c.wrapping_sub(total), sl.len(), log);
                        failed = true;
                        break 'slices;
                    }
                    #[allow(unreachable_patterns)]
                    _ => panic!("an outcome that is not documented"),
                }
                break;
            }
            ensure!(p.byte_count() == total, "byte_count {} after {} bytes{}", p.byte_count(), total, log);
        }
        // the same on a new parser
        let mut r2 = Rec::new(pause);
        let mut t2 = 0;
        let e2 = feed(&mut fresh, &mut r2, &slices(wire, &cuts), false, &mut rec_paused, &mut t2, &mut |_, _| {});
        ensure!(
            (e2 == End::Err) == failed && r2.t.t == rec.t.t && r2.pauses == rec.pauses && fresh.byte_count() == p.byte_count() && fresh.state() == p.state(),
            "after reset: {} bytes, state {:?}; new parser: {} bytes, state {:?}, {:?}\n {}{}",
            p.byte_count(), p.state(), fresh.byte_count(), fresh.state(), e2, first_difference(&rec.t.t, &r2.t.t), log
        );
        st.class(if failed { "reset after an error" } else { "reset after success" });
        st.runs += 2;
        st.nontrivial(total > 0, wire);
        p.reset();
        log.push_str("\n reset");
    }
    // and last a known stream
    let m = stream(s, 4, false);
    let cuts = s.cuts(m.wire.len());
    let (out, _) = run_on(&mut p, &mut Rec::new(Pause::Never), &slices(&m.wire, &cuts), false);
    st.runs += 1;
    log.push_str(&format!("\n {}", describe(&m.wire, &cuts)));
    ensure!(
        out.end == End::More && out.t == m.t.t && out.count == m.wire.len() && p.byte_count() == m.wire.len(),
        "{:?}, {} bytes\n {}{}", out.end, out.count, first_difference(&out.t, &m.t.t), log
    );
    st.sample(|| log.clone());
    Ok(())
}

// ----------------------------------------------------------------------------------- typed values

fn code_predicates(e: &ErrorCode) -> [bool; 14] {
    [
        e.is_no_error(), e.is_protocol(), e.is_internal(), e.is_flow_control(), e.is_settings_timeout(), e.is_stream_closed(),
        e.is_frame_size(), e.is_refused_stream(), e.is_cancel(), e.is_compression(), e.is_connect(), e.is_enhance_your_calm(),
        e.is_inadequate_security(), e.is_http_1_1_required(),
    ]
}

fn type_predicates(f: &FrameType) -> [bool; 11] {
    [
        f.is_data(), f.is_headers(), f.is_priority(), f.is_rst_stream(), f.is_settings(), f.is_push_promise(), f.is_push_ping(),
        f.is_go_away(), f.is_window_update(), f.is_continuation(), f.is_unsupported(),
    ]
}

fn setting_predicates(x: &Setting) -> [bool; 7] {
    [
        x.is_header_table_size(), x.is_enable_push(), x.is_max_concurrent_streams(), x.is_initial_window_size(),
        x.is_max_frame_size(), x.is_max_header_list_size(), x.is_unsupported(),
    ]
}

fn check_setting(id: u16, value: u32) -> Check {
    let x = Setting::Unsupported(7).new(id, value);
    let want = if (1..=6).contains(&id) { id as usize - 1 } else { 6 };
    for (i, &p) in setting_predicates(&x).iter().enumerate() {
        ensure!(p == (i == want), "setting {:#x} = {}: predicate {} is {}", id, value, i, p);
    }
    let ok = match x {
        Setting::HeaderTableSize(v) => want == 0 && v == value,
        Setting::EnablePush(v) => want == 1 && v == value,
        Setting::MaxConcurrentStreams(v) => want == 2 && v == value,
        Setting::InitialWindowSize(v) => want == 3 && v == value,
        Setting::MaxFrameSize(v) => want == 4 && v == value,
        Setting::MaxHeaderListSize(v) => want == 5 && v == value,
        Setting::Unsupported(v) => want == 6 && v == value,
        #[allow(unreachable_patterns)]
        _ => false,
    };
    ensure!(ok && x.value() == value, "setting {:#x} = {} gives another value or kind ({})", id, value, x.value());
    Ok(())
}

fn check_flags(f: &Flags, b: u8) -> Check {
    ensure!(f.as_byte() == b, "flags {:#x} give {:#x}", b, f.as_byte());
    let got = [f.is_ack(), f.is_end_stream(), f.is_end_headers(), f.is_padded(), f.is_priority(), f.is_empty()];
    let want = [b & 1 != 0, b & 1 != 0, b & 4 != 0, b & 8 != 0, b & 0x20 != 0, b == 0];
    ensure!(got == want, "flags {:#x}: [ack, end stream, end headers, padded, priority, empty] = {:?}", b, got);
    Ok(())
}

fn check_type(f: &FrameType, b: u8) -> Check {
    let want = (b as usize).min(10);
    for (i, &p) in type_predicates(f).iter().enumerate() {
        ensure!(p == (i == want), "frame type {:#x}: predicate {} is {}", b, i, p);
    }
    let back = if b < 10 { b } else { 0xFF };
    ensure!(f.as_byte() == back, "frame type {:#x} maps back to {:#x}", b, f.as_byte());
    const T: [FrameType; 10] = [
        FrameType::Data, FrameType::Headers, FrameType::Priority, FrameType::RstStream, FrameType::Settings,
        FrameType::PushPromise, FrameType::Ping, FrameType::GoAway, FrameType::WindowUpdate, FrameType::Continuation,
    ];
    for (i, t) in T.iter().enumerate() {
        ensure!((*t == *f) == (i == want), "frame type {:#x} compared with variant {}", b, i);
        ensure!(t.as_byte() == i as u8, "frame type variant {} has the number {:#x}", i, t.as_byte());
    }
    Ok(())
}

fn check_format(len: u32, ty: u8, flags: u8, sid: u32) -> Check {
    // new() takes an object, which it does not read
    let mut any: FrameFormat = unsafe { std::mem::MaybeUninit::zeroed().assume_init() };
    let f = any.new(len, ty, flags, sid);
    ensure!(
        f.payload_length() == len && f.stream_id() == sid && f.flags().as_byte() == flags,
        "frame format ({:#x}, {:#x}, {:#x}, {:#x}) gives length {:#x}, flags {:#x}, stream {:#x}",
        len, ty, flags, sid, f.payload_length(), f.flags().as_byte(), f.stream_id()
    );
    check_type(&f.frame_type(), ty)?;
    check_flags(&f.flags(), flags)
}

fn c27_enum(i: u64, st: &mut Stats) -> Check {
    st.runs += 1;
    let values = [0u32, 1, 0xFF, 0x100, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x0102_0304];
    if i < 256 {
        let b = i as u8;
        let e = ErrorCode::from_u8(b);
        for (k, &p) in code_predicates(&e).iter().enumerate() {
            ensure!(p == (k == b as usize), "error code {:#x}: predicate {} is {}", b, k, p);
        }
        let back = if b < 14 { b } else { 0xFF };
        ensure!(e.as_byte() == back, "error code {:#x} maps back to {:#x}", b, e.as_byte());
        const C: [ErrorCode; 14] = [
            ErrorCode::NoError, ErrorCode::Protocol, ErrorCode::Internal, ErrorCode::FlowControl, ErrorCode::SettingsTimeout,
            ErrorCode::StreamClosed, ErrorCode::FrameSize, ErrorCode::RefusedStream, ErrorCode::Cancel, ErrorCode::Compression,
            ErrorCode::Connect, ErrorCode::EnhanceYourCalm, ErrorCode::InadequateSecurity, ErrorCode::Http11Required,
        ];
        for (k, c) in C.iter().enumerate() {
            ensure!((*c == e) == (k == b as usize), "error code {:#x} compared with variant {}", b, k);
            ensure!(c.as_byte() == k as u8, "error code variant {} has the number {:#x}", k, c.as_byte());
        }
        check_type(&FrameType::from_u8(b), b)?;
        check_flags(&Flags::from_u8(b), b)?;
        for &l in &[0u32, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFF_FFFF, 0x01_0203] {
            for &sid in &values {
                check_format(l, b, !b, sid & 0x7FFF_FFFF)?;
                check_format(l, !b, b, sid & 0x7FFF_FFFF)?;
            }
        }
        Ok(())
    } else {
        let hi = (i - 256) as u16;
        for lo in 0..256u16 {
            for &v in &values {
                check_setting(hi << 8 | lo, v)?;
            }
        }
        Ok(())
    }
}

fn c27(s: &mut Src, st: &mut Stats) -> Check {
    let (len, ty, flags, sid) = (number(s, 24) as u32, s.byte(), s.byte(), number(s, 31) as u32);
    let (id, value) = (number(s, 16) as u16, number(s, 32) as u32);
    let mut key = vec![ty, flags];
    key.extend_from_slice(&len.to_be_bytes());
    key.extend_from_slice(&sid.to_be_bytes());
    key.extend_from_slice(&id.to_be_bytes());
    key.extend_from_slice(&value.to_be_bytes());
    st.nontrivial(true, &key);
    st.runs += 1;
    st.sample(|| format!("frame format ({:#x}, {:#x}, {:#x}, {:#x}), setting {:#x} = {:#x}", len, ty, flags, sid, id, value));
    check_format(len, ty, flags, sid)?;
    check_setting(id, value)
}

/// For C17: after an error.
pub fn terminal(s: &mut Src, st: &mut Stats) -> Check {
    let mut wire = vec![];
    let n = s.below(3);
    for _ in 0..n {
        let mut m = Stream::default();
        frame(s, &mut m, false);
        wire.extend_from_slice(&m.wire);
    }
    let b = short(s);
    wire.extend_from_slice(&b.wire);
    let mut tail = Stream::default();
    while tail.wire.len() < 300 {
        sentinel(&mut tail);
    }
    wire.extend_from_slice(&tail.wire);
    let cuts = if s.chance(128) { vec![] } else { s.cuts(wire.len()) };
    let mut p: Parser<Rec> = Parser::new();
    let mut rec = Rec::new(if s.chance(60) { Pause::Always } else { Pause::Never });
    let (out, _) = run_on(&mut p, &mut rec, &slices(&wire, &cuts), false);
    st.runs += 1;
    st.nontrivial(true, &wire);
    st.sample(|| format!("{:?}: {}", out.end, describe(&wire, &cuts)));
    let info = |what: String| format!("http2: {}\n after {}\n {}", what, out.show(), describe(&wire, &cuts));
    ensure!(out.end == End::Err, "{}", info("a frame too short for its fields is not rejected".into()));
    ensure!(p.state() == ParserState::Dead, "{}", info(format!("state {:?}", p.state())));
    let before = (rec.callbacks, p.byte_count());
    let n = s.range(1, 5);
    for _ in 0..n {
        let next = match s.below(3) {
            0 => vec![],
            1 => {
                let n = s.len(60);
                s.bytes(n)
            }
            _ => stream(s, 3, false).wire,
        };
        let r = p.resume(&mut rec, &next);
        ensure!(r.is_err(), "{}", info(format!("a later call with {} gives {:?}", show(&next), r)));
        ensure!(rec.callbacks == before.0, "{}", info(format!("a later call with {} reports {}", show(&next), show_t(&rec.t.t))));
        ensure!(p.byte_count() == before.1, "{}", info("a later call counts bytes".into()));
        ensure!(p.state() == ParserState::Dead, "{}", info(format!("state {:?} after a later call", p.state())));
    }
    p.reset();
    let m = stream(s, 3, false);
    let (again, _) = run_on(&mut p, &mut Rec::new(Pause::Never), &[&m.wire], false);
    ensure!(again.end == End::More && again.t == m.t.t, "{}", info(format!("after reset {} gives {}", describe(&m.wire, &[]), again.show())));
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, quick, thorough, rule| {
        v.push(Prop { id, f, enumerated: 0, e: no_enum, long: 0, l: no_enum, quick, thorough, rule })
    };
    add("C20", c20, 1_700_000, 102_000_000, "One to eight well-formed frames of all types with random flags, reserved bits, boundary values, padding and payloads (up to 16 MB) are fed in one slice and in a random partition and must be reported as built. Enumerated on top: 11 types x 256 flag bytes x 3 bodies x all two-way cuts, and lengths up to 2^24-1; also with pauses and on a parser used before. Every case is non-trivial.");
    add("C21", c21, 480_000, 28_800_000, "A valid, mutated or arbitrary stream in one slice, byte by byte, in every cut into two and in four random partitions; transcript, outcome and count must agree, also after every byte. Enumerated on top: all partitions into four slices of one frame of each type. Non-trivial: more than one byte.");
    add("C22", c22, 1_800_000, 108_000_000, "A valid, mutated or arbitrary stream with pauses at all, kinds of, random and each single callback, against the run without; and a handler without callbacks. Non-trivial: at least one callback.");
    add("C23", c23, 570_000, 34_200_000, "Valid, mutated and arbitrary streams in partitions with pauses; built with overflow and unchecked-access checks. Non-trivial: more than one byte.");
    add("C24", c24, 680_000, 40_800_000, "Two to twelve frames back to back, mostly padded, many with nothing but padding; transcript as built, also cut at and around frame borders and after each frame; also with pauses and on a parser used before. Non-trivial: at least one padded frame.");
    add("C25", c25, 1_500_000, 90_000_000, "Frames, then one that is too short for its fields or its padding, then frames, in several partitions. Every case is non-trivial.");
    add("C26", c26, 1_800_000, 108_000_000, "One to four rounds of valid, mutated or arbitrary bytes with pauses on one parser, each ended by a reset at any point, against a new parser. Non-trivial: bytes were taken.");
    add("C27", c27, 15_000_000, 900_000_000, "Enumerated completely: all 256 error codes, frame types and flag bytes and all 65536 setting identifiers with 9 values; random frame headers and settings on top. Every case is non-trivial.");
    for p in v.iter_mut() {
        match p.id {
            "C20" => {
                p.enumerated = 11 * 256 + 6;
                p.e = c20_enum;
            }
            "C21" => {
                p.enumerated = 44;
                p.e = c21_enum;
            }
            "C27" => {
                p.enumerated = 512;
                p.e = c27_enum;
            }
            _ => {}
        }
    }
}
