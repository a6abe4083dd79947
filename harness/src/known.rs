//! Genuine defects that are recorded and not repaired (/verif/known_findings.txt). The generators
//! leave their inputs out; a probe here runs exactly those inputs. What it finds is one of: the
//! defect is gone, it is as recorded, or something else happens (a violation).

use crate::h1::{self, End, Kind, Plan};
use crate::h2;

pub enum Found {
    Gone,
    AsRecorded,
    Other(String),
}

pub struct Known {
    pub property: &'static str,
    pub id: &'static str,
    pub what: &'static str,
    pub probe: fn() -> Found,
}

/// A SETTINGS frame with two settings, and a PING after it.
fn two_settings() -> Found {
    let mut w = h2::head(12, 4, 0, 0);
    w.extend_from_slice(&[0, 1, 0, 0, 16, 0, 0, 3, 0, 0, 0, 100]);
    w.extend_from_slice(&h2::head(8, 6, 0, 0));
    w.extend_from_slice(b"pingpong");
    let mut right = h2::T::default();
    right.nums(h2::FRAME, &[12, 4, 0, 0]);
    right.nums(h2::SETTINGS, &[1, 4096]);
    right.nums(h2::SETTINGS, &[3, 100]);
    right.nums(h2::FRAME, &[8, 6, 0, 0]);
    right.data(h2::PING, b"pingpong", true);
    // the second setting and the first three bytes of the next frame are taken for a frame header
    // (length 3, type 0), the rest of that frame for its payload and two more headers
    let mut wrong = h2::T::default();
    wrong.nums(h2::FRAME, &[12, 4, 0, 0]);
    wrong.nums(h2::SETTINGS, &[1, 4096]);
    wrong.nums(h2::FRAME, &[0x300, 0, 0, 0x6400_0008]);
    wrong.data(h2::DATA, &[6, 0, 0, 0, 0, 0], false);
    wrong.data(h2::DATA, b"pingpong", false);
    let out = h2::run(&[&w]);
    if out.end == h2::End::More && out.t == right.t {
        Found::Gone
    } else if out.end == h2::End::More && out.t == wrong.t {
        Found::AsRecorded
    } else {
        Found::Other(out.show())
    }
}

/// A blank line first, on Parser::new() without init_head().
fn new_parser() -> Found {
    let mut gone = true;
    for lead in ["\r\n", "\r", "\n", " ", "\t"] {
        let w = format!("{}GET / HTTP/1.1\r\n\r\n", lead);
        let init = h1::run(&Plan::head(false), &[w.as_bytes()]);
        let new = h1::run(&Plan::head(true), &[w.as_bytes()]);
        if init.end != End::Finished || init.count != w.len() {
            return Found::Other(format!("init_head: {}", init.show()));
        }
        if new.end == init.end && new.t == init.t && new.count == init.count {
            continue;
        }
        gone = false;
        if new.end != End::Err(Kind::Method, Some(lead.as_bytes()[0])) || !new.t.is_empty() {
            return Found::Other(format!("Parser::new: {}", new.show()));
        }
    }
    if gone {
        Found::Gone
    } else {
        Found::AsRecorded
    }
}

/// The bytes {|}~ after a backslash in a quoted header value.
fn escapes() -> Found {
    let mut gone = true;
    for b in 0x7B..=0x7Eu8 {
        let mut w = b"GET / HTTP/1.1\r\na: \"\\".to_vec();
        w.push(b);
        w.extend_from_slice(b"\"\r\n\r\n");
        let mut t = h1::T::default();
        t.data(h1::METHOD, b"GET");
        t.data(h1::URL, b"/");
        t.version(1, 1);
        t.mark(h1::INITIAL_FINISHED);
        t.data(h1::HEADER_NAME, b"a");
        let mut wrong = t.clone();
        t.data(h1::HEADER_VALUE, &[b'"', b'\\', b, b'"']);
        t.mark(h1::HEADERS_FINISHED);
        wrong.data(h1::HEADER_VALUE, b"");
        let out = h1::run(&Plan::head(true), &[&w]);
        if out.end == End::Finished && out.t == t.t {
            continue;
        }
        gone = false;
        let shown = out.show();
        let out = out.norm();
        let mut wrong = wrong.t;
        h1::cut_interrupted(&mut wrong, &out.end);
        if out.end != End::Err(Kind::HeaderValue, Some(b)) || out.t != wrong {
            return Found::Other(shown);
        }
    }
    if gone {
        Found::Gone
    } else {
        Found::AsRecorded
    }
}

pub const ALL: [Known; 4] = [
    Known { property: "C20", id: "K1", what: "a SETTINGS frame with more than one setting: only the first is reported", probe: two_settings },
    Known { property: "C24", id: "K1", what: "a SETTINGS frame with more than one setting: the rest of it is taken for the next frame", probe: two_settings },
    Known { property: "C15", id: "K2", what: "Parser::new() rejects a blank line before a head, which a reset or initialised parser skips", probe: new_parser },
    Known { property: "C03", id: "K3", what: "the escaped bytes {|}~ in a quoted header value are rejected", probe: escapes },
];
