//! Handlers that leave callbacks out.

#![allow(non_camel_case_types)]

use super::{h1p, h2p, no_enum, Prop};
use crate::ensure;
use crate::stats::{Check, Stats};
use crate::tape::{slices, Src};
use crate::{h1, h2};
use http_box::fsm::Success;
use http_box::{http1, http2};

/// The methods of a trait, forwarded to the field 0; and for each of them a handler with nothing else, and one without it.
macro_rules! handlers {
    ($d:tt, $module:ident, $side:ident, $trait:path, $all:ident, $h:ident, { $($m:ident ($($a:ident: $t:ty),*) -> $r:ty = $default:expr, $bit:expr;)* }
        { $($group:ident [$($g:ident)*];)* }) => {
        macro_rules! $h {
            $(($m) => { fn $m(&mut self, $($a: $t),*) -> $r { self.0.$m($($a),*) } };)*
        }

        pub mod $module {
            use super::*;

            pub trait Part: $trait {
                fn rec(&mut self) -> &mut $side::Rec;
                fn left_out(&self) -> (&'static str, u32);
            }

            /// all methods, those that are not in the mask as the documentation gives their default
            pub struct Masked(pub $side::Rec, pub u32);
            impl $trait for Masked {
                $(fn $m(&mut self, $($a: $t),*) -> $r {
                    if self.1 >> $bit & 1 == 1 { self.0.$m($($a),*) } else { $(let _ = $a;)* $default }
                })*
            }
            impl Part for Masked {
                fn rec(&mut self) -> &mut $side::Rec { &mut self.0 }
                fn left_out(&self) -> (&'static str, u32) { ("masked", self.1) }
            }

            /// one type for the parser, whatever the handler is
            pub struct Dyn(pub Box<dyn Part>);
            impl $trait for Dyn {
                $(fn $m(&mut self, $($a: $t),*) -> $r { self.0.$m($($a),*) })*
            }

            pub struct Nothing($side::Rec);
            impl $trait for Nothing {}
            impl Part for Nothing {
                fn rec(&mut self) -> &mut $side::Rec { &mut self.0 }
                fn left_out(&self) -> (&'static str, u32) { ("no callback", 0) }
            }

            pub mod only {
                use super::*;
                $(
                    pub struct $m(pub $side::Rec);
                    impl $trait for $m { $h!($m); }
                    impl Part for $m {
                        fn rec(&mut self) -> &mut $side::Rec { &mut self.0 }
                        fn left_out(&self) -> (&'static str, u32) { (concat!("only ", stringify!($m)), 1 << $bit) }
                    }
                )*
            }

            pub mod without {
                use super::*;
                macro_rules! each {
                    ([$d($d b:ident)*] $d k:ident $d($d a:ident)*) => {
                        pub struct $d k(pub $side::Rec);
                        impl $trait for $d k { $d($h!($d b);)* $d($h!($d a);)* }
                        each!([$d($d b)* $d k] $d($d a)*);
                    };
                    ([$d($d b:ident)*]) => {};
                }
                each!([] $($m)*);
                $(
                    impl Part for $m {
                        fn rec(&mut self) -> &mut $side::Rec { &mut self.0 }
                        fn left_out(&self) -> (&'static str, u32) { (concat!("all but ", stringify!($m)), !(1 << $bit)) }
                    }
                )*
            }

            pub mod group {
                use super::*;
                mod bit {
                    $(pub const $m: u32 = 1 << $bit;)*
                }
                $(
                    pub struct $group(pub $side::Rec);
                    impl $trait for $group { $($h!($g);)* }
                    impl Part for $group {
                        fn rec(&mut self) -> &mut $side::Rec { &mut self.0 }
                        fn left_out(&self) -> (&'static str, u32) { (concat!("only the ", stringify!($group)), 0 $(| bit::$g)*) }
                    }
                )*
            }

            pub fn $all() -> Vec<fn($side::Rec) -> Box<dyn Part>> {
                vec![
                    |r| Box::new(Nothing(r)),
                    $(|r| Box::new(only::$m(r)), |r| Box::new(without::$m(r)),)*
                    $(|r| Box::new(group::$group(r)),)*
                ]
            }
        }
    };
}

handlers! { $, one, h1, http1::HttpHandler, all, forward1, {
    content_length() -> Option<usize> = None, 31;
    on_body_finished() -> bool = true, 0;
    on_chunk_begin() -> bool = true, 1;
    on_chunk_data(d: &[u8]) -> bool = true, 2;
    on_chunk_extension_finished() -> bool = true, 3;
    on_chunk_extension_name(d: &[u8]) -> bool = true, 4;
    on_chunk_extension_value(d: &[u8]) -> bool = true, 5;
    on_chunk_extensions_finished() -> bool = true, 6;
    on_chunk_length(n: usize) -> bool = true, 7;
    on_header_name(d: &[u8]) -> bool = true, 8;
    on_header_value(d: &[u8]) -> bool = true, 9;
    on_headers_finished() -> bool = true, 10;
    on_initial_finished() -> bool = true, 11;
    on_method(d: &[u8]) -> bool = true, 12;
    on_multipart_begin() -> bool = true, 13;
    on_multipart_data(d: &[u8]) -> bool = true, 14;
    on_status(d: &[u8]) -> bool = true, 15;
    on_status_code(n: u16) -> bool = true, 16;
    on_url(d: &[u8]) -> bool = true, 17;
    on_url_encoded_begin() -> bool = true, 18;
    on_url_encoded_name(d: &[u8]) -> bool = true, 19;
    on_url_encoded_value(d: &[u8]) -> bool = true, 20;
    on_version(major: u16, minor: u16) -> bool = true, 21;
} {
    data [on_chunk_data on_multipart_data on_url_encoded_name on_url_encoded_value];
    data_and_lengths [content_length on_multipart_begin on_headers_finished on_multipart_data on_chunk_length on_chunk_data];
    ends [on_initial_finished on_headers_finished on_chunk_extensions_finished on_body_finished];
    headers [on_header_name on_header_value];
    head [on_method on_url on_version on_status_code on_status on_header_name on_header_value];
    begins [on_chunk_begin on_multipart_begin on_url_encoded_begin];
    extensions [on_chunk_extension_name on_chunk_extension_value on_chunk_extension_finished];
} }

handlers! { $, two, h2, http2::HttpHandler, all, forward2, {
    on_data(d: &[u8], finished: bool) -> bool = true, 0;
    on_frame_format(payload_length: u32, frame_type: u8, flags: u8, stream_id: u32) -> bool = true, 1;
    on_go_away(stream_id: u32, error_code: u32) -> bool = true, 2;
    on_go_away_debug_data(d: &[u8], finished: bool) -> bool = true, 3;
    on_headers(exclusive: bool, stream_id: u32, weight: u8) -> bool = true, 4;
    on_headers_fragment(d: &[u8], finished: bool) -> bool = true, 5;
    on_ping(d: &[u8], finished: bool) -> bool = true, 6;
    on_priority(exclusive: bool, stream_id: u32, weight: u8) -> bool = true, 7;
    on_push_promise(stream_id: u32) -> bool = true, 8;
    on_rst_stream(error_code: u32) -> bool = true, 9;
    on_settings(id: u16, value: u32) -> bool = true, 10;
    on_unsupported(d: &[u8], finished: bool) -> bool = true, 11;
    on_window_update(n: u32) -> bool = true, 12;
} {
    data [on_data on_headers_fragment];
    headers [on_headers on_headers_fragment on_push_promise];
    control [on_settings on_ping on_go_away on_window_update on_rst_stream on_priority];
    payload [on_data on_headers_fragment on_go_away_debug_data on_ping on_unsupported];
} }

/// One call: outcome, length of the transcript, byte count.
type Log = Vec<(String, usize, usize)>;

fn c45_http1(s: &mut Src, st: &mut Stats) -> Check {
    let broken = s.chance(40);
    let (plan, wire) = h1p::any_element(s, st, broken);
    let cuts = if s.chance(100) { vec![] } else { s.cuts(wire.len()) };
    let pause = if s.chance(100) { h1p::pause_plan(s, 20) } else { h1::Pause::Never };
    let kinds = one::all();
    let make = *s.pick(&kinds);
    let sl = slices(&wire, &cuts);
    let rec = || {
        let mut r = h1::Rec::new(&plan.parts, pause.clone());
        r.cap = h1::cap_for(wire.len(), sl.len()) * 2;
        r
    };
    let (what, mask) = make(rec()).left_out();
    let go = |h: Box<dyn one::Part>| {
        let mut log: Log = vec![];
        let mut p: http1::Parser<one::Dyn> = http1::Parser::new();
        plan.init(&mut p);
        let mut h = one::Dyn(h);
        let mut states = vec![];
        'all: for x in &sl {
            let mut rest: &[u8] = x;
            loop {
                let r = p.resume(&mut h, rest);
                let rec = h.0.rec();
                rec.paused = false;
                log.push((format!("{:?}", r), rec.t.t.len(), p.byte_count()));
                states.push(p.state());
                match r {
                    Ok(Success::Eos(_)) => break,
                    Ok(Success::Callback(n)) if n <= rest.len() => {
                        rest = &rest[n..];
                        if rest.is_empty() {
                            break;
                        }
                    }
                    _ => break 'all,
                }
            }
        }
        let rec = h.0.rec();
        (log, rec.t.t.clone(), states, rec.callbacks)
    };
    let (a, b) = (go(Box::new(one::Masked(rec(), mask))), go(make(rec())));
    st.runs += 2;
    st.class(what);
    st.nontrivial(wire.len() > 1, &wire);
    st.sample(|| format!("{}: {}", what, h1p::describe(&plan, &wire, &cuts)));
    let results = |l: &Log| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    ensure!(
        a.0 == b.0 && a.1 == b.1 && a.2 == b.2,
        "a handler with {}: {} {}\n one with all of them, the others doing nothing: {} {}\n {}",
        what, results(&b.0), h1::show_t(&b.1), results(&a.0), h1::show_t(&a.1), h1p::describe(&plan, &wire, &cuts)
    );
    Ok(())
}

fn c45_http2(s: &mut Src, st: &mut Stats) -> Check {
    let wire = if s.chance(200) { h2::stream(s, 4, false).wire } else { h2p::any_stream(s, st) };
    let cuts = if s.chance(100) { vec![] } else { s.cuts(wire.len()) };
    let pause = if s.chance(100) { h2p::pause_plan(s, 20) } else { h2::Pause::Never };
    let kinds = two::all();
    let make = *s.pick(&kinds);
    let sl = slices(&wire, &cuts);
    let rec = || {
        let mut r = h2::Rec::new(pause.clone());
        r.cap = 512 + 16 * (wire.len() + sl.len());
        r
    };
    let (what, mask) = make(rec()).left_out();
    let go = |h: Box<dyn two::Part>| {
        let mut log: Log = vec![];
        let mut p: http2::Parser<two::Dyn> = http2::Parser::new();
        let mut h = two::Dyn(h);
        let mut states = vec![];
        'all: for x in &sl {
            let mut rest: &[u8] = x;
            loop {
                let r = p.resume(&mut h, rest);
                let rec = h.0.rec();
                rec.paused = false;
                log.push((format!("{:?}", r), rec.t.t.len(), p.byte_count()));
                states.push(p.state());
                match r {
                    Ok(Success::Eos(_)) => break,
                    Ok(Success::Callback(n)) if n <= rest.len() => {
                        rest = &rest[n..];
                        if rest.is_empty() {
                            break;
                        }
                    }
                    _ => break 'all,
                }
            }
        }
        let rec = h.0.rec();
        (log, rec.t.t.clone(), states, rec.callbacks)
    };
    let (a, b) = (go(Box::new(two::Masked(rec(), mask))), go(make(rec())));
    st.runs += 2;
    st.class("http2");
    st.class(what);
    st.nontrivial(wire.len() > 9, &wire);
    st.sample(|| format!("{}: {}", what, h2p::describe(&wire, &cuts)));
    let results = |l: &Log| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
    ensure!(
        a.0 == b.0 && a.1 == b.1 && a.2 == b.2,
        "a handler with {}: {} {}\n one with all of them, the others doing nothing: {} {}\n {}",
        what, results(&b.0), h2::show_t(&b.1), results(&a.0), h2::show_t(&a.1), h2p::describe(&wire, &cuts)
    );
    Ok(())
}

fn c45(s: &mut Src, st: &mut Stats) -> Check {
    if s.chance(90) {
        c45_http2(s, st)
    } else {
        c45_http1(s, st)
    }
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, quick, thorough, rule| v.push(Prop { id, f, enumerated: 0, e: no_enum, long: 0, l: no_enum, quick, thorough, rule });
    add("C45", c45, 1_800_000, 108_000_000, "A valid or mutated element or stream, in any partition, with and without pauses, given to a handler that implements no callback, one, all but one, or a group of them; outcomes, states, byte counts and calls must equal those of a handler that implements all, where the others return what the documentation says is the default. Non-trivial: more than one byte (HTTP/2: more than a frame header).");
}
