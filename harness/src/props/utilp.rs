//! Properties of the utilities: URL decoding, query strings, header field parameters, byte classes.

use super::{no_enum, Prop};
use crate::ensure;
use crate::mem;
use crate::h1::{self, End, Kind, Mode, Plan, HEADER_NAME, URL_BEGIN, URL_NAME, URL_VALUE};
use crate::h1gen::*;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Src};
use http_box::byte::{is_header_field, is_quoted_header_field, is_token as lib_is_token};
use http_box::util::{decode, DecodeError, FieldError, FieldIterator, QueryError, QueryIterator};
use std::cell::RefCell;
use std::rc::Rc;

pub type Items = Vec<(Vec<u8>, Option<Vec<u8>>)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum E {
    Byte(u8),
    Hex(u8),
    Name(u8),
    Value(u8),
    /// of no kind that there should be
    Unknown,
    /// a value that lacks its end: no particular byte is wrong
    ValueEnd,
}

fn e_eq(got: E, want: E) -> bool {
    got == want || want == E::ValueEnd && matches!(got, E::Value(_))
}

fn show_items(i: &Items) -> String {
    let mut s = String::from("[");
    for (n, v) in i {
        if s.len() > 3000 {
            s.push_str(" ...");
            break;
        }
        s.push_str(&format!(" {}", show(n)));
        if let Some(v) = v {
            s.push_str(&format!("={}", show(v)));
        }
    }
    s.push_str(" ]");
    s
}

fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// The byte at which text stops to be UTF-8.
fn not_utf8(v: &[u8]) -> Option<u8> {
    std::str::from_utf8(v).err().map(|e| v[e.valid_up_to()])
}

// ------------------------------------------------------------------------------ reference models

/// Decode up to the first byte that is wrong: (decoded, error kind and byte).
fn m_decode(t: &[u8]) -> (Vec<u8>, Option<E>) {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            b'+' => out.push(b' '),
            b'%' => {
                let a = match t.get(i + 1) {
                    Some(&a) => a,
                    None => return (out, Some(E::Hex(b'%'))),
                };
                let b = match t.get(i + 2) {
                    Some(&b) => b,
                    None => return (out, Some(E::Hex(a))),
                };
                match (hex(a), hex(b)) {
                    (Some(x), Some(y)) => out.push(x << 4 | y),
                    (None, _) => return (out, Some(E::Hex(a))),
                    _ => return (out, Some(E::Hex(b))),
                }
                i += 2;
            }
            b @ 0x21..=0x7E => out.push(b),
            b => return (out, Some(E::Byte(b))),
        }
        i += 1;
    }
    (out, None)
}

/// Items, and the errors that may be reported after them (none: the end is reached).
struct Iterated {
    items: Items,
    errors: Vec<E>,
}

fn m_query(t: &[u8]) -> Iterated {
    let mut r = Iterated { items: vec![], errors: vec![] };
    let mut i = 0;
    while i < t.len() {
        let mut name = vec![];
        let mut value: Option<Vec<u8>> = None;
        let mut err = None;
        loop {
            if i == t.len() {
                break;
            }
            let b = t[i];
            let e = |in_value: bool, b| if in_value { E::Value(b) } else { E::Name(b) };
            match b {
                b'&' | b';' => {
                    if i == 0 {
                        err = Some(E::Name(b));
                    }
                    i += 1;
                    break;
                }
                b'=' if value.is_none() => {
                    if i == 0 {
                        err = Some(E::Name(b));
                        break;
                    }
                    value = Some(vec![]);
                }
                b'+' => value.as_mut().unwrap_or(&mut name).push(b' '),
                b'%' => {
                    let v = value.is_some();
                    let out = value.as_mut().unwrap_or(&mut name);
                    match (t.get(i + 1), t.get(i + 2)) {
                        (None, _) => err = Some(e(v, b'%')),
                        (Some(&a), None) => err = Some(e(v, a)),
                        (Some(&a), Some(&b)) => match (hex(a), hex(b)) {
                            (Some(x), Some(y)) => out.push(x << 4 | y),
                            (None, _) => err = Some(e(v, a)),
                            _ => err = Some(e(v, b)),
                        },
                    }
                    if err.is_some() {
                        break;
                    }
                    i += 2;
                }
                0x21..=0x7E => value.as_mut().unwrap_or(&mut name).push(b),
                _ => {
                    err = Some(e(value.is_some(), b));
                    break;
                }
            }
            i += 1;
        }
        let mut errors: Vec<E> = err.into_iter().collect();
        if let Some(b) = not_utf8(&name) {
            errors.push(E::Name(b));
        }
        if let Some(b) = value.as_ref().and_then(|v| not_utf8(v)) {
            if not_utf8(&name).is_none() {
                errors.push(E::Value(b));
            }
        }
        if !errors.is_empty() {
            r.errors = errors;
            return r;
        }
        r.items.push((name, value));
    }
    r
}

fn m_field(t: &[u8], delimiter: u8, normalize: bool) -> Iterated {
    let mut r = Iterated { items: vec![], errors: vec![] };
    let mut i = 0;
    let space = |i: &mut usize| {
        while *i < t.len() && (t[*i] == b' ' || t[*i] == b'\t') {
            *i += 1;
        }
    };
    'items: while i < t.len() {
        space(&mut i);
        if i == t.len() {
            break;
        }
        let mut name = vec![];
        let mut value = None;
        let mut err = None;
        'item: loop {
            // name
            if i == t.len() {
                break;
            }
            let b = t[i];
            i += 1;
            if b == delimiter {
                break;
            }
            if b == b'=' {
                space(&mut i);
                if i == t.len() {
                    break;
                }
                let mut v = vec![];
                if t[i] == b'"' {
                    i += 1;
                    loop {
                        if i == t.len() {
                            err = Some(E::ValueEnd);
                            break 'item;
                        }
                        let b = t[i];
                        i += 1;
                        if b == b'"' {
                            break;
                        } else if b == b'\\' {
                            if i == t.len() {
                                err = Some(E::ValueEnd);
                                break 'item;
                            }
                            v.push(t[i]);
                            i += 1;
                        } else if is_quoted(b) {
                            v.push(b);
                        } else {
                            err = Some(E::Value(b));
                            break 'item;
                        }
                    }
                    space(&mut i);
                    if i < t.len() {
                        if t[i] != delimiter {
                            err = Some(E::Value(t[i]));
                            break 'item;
                        }
                        i += 1;
                    }
                } else {
                    while i < t.len() && t[i] != delimiter {
                        if !is_field(t[i]) {
                            err = Some(E::Value(t[i]));
                            break 'item;
                        }
                        v.push(t[i]);
                        i += 1;
                    }
                    if i < t.len() {
                        i += 1;
                    }
                }
                value = Some(v);
                break;
            }
            if is_token(b) || b == b'/' {
                name.push(if normalize { b.to_ascii_lowercase() } else { b });
            } else {
                err = Some(E::Name(b));
                break;
            }
        }
        let mut errors: Vec<E> = err.into_iter().collect();
        if let Some(b) = value.as_ref().and_then(|v: &Vec<u8>| not_utf8(v)) {
            errors.push(E::Value(b));
        }
        if !errors.is_empty() {
            r.errors = errors;
            break 'items;
        }
        r.items.push((name, value));
    }
    r
}

// -------------------------------------------------------------------------------------- the code

fn run_decode(t: &[u8]) -> Result<Vec<u8>, E> {
    match decode(t) {
        Ok(s) => Ok(s.into_bytes()),
        Err(DecodeError::Byte(b)) => Err(E::Byte(b)),
        Err(DecodeError::HexSequence(b)) => Err(E::Hex(b)),
        #[allow(unreachable_patterns)]
        Err(_) => Err(E::Unknown),
    }
}

struct Ran {
    items: Items,
    errors: Vec<E>,
    /// something after the end, strings that are not UTF-8, too many items
    bad: Option<String>,
}

fn drain<I: Iterator<Item = (String, Option<String>)>>(it: &mut I, len: usize) -> (Items, Option<String>) {
    let mut items: Items = vec![];
    let mut bad = None;
    while let Some((n, v)) = it.next() {
        if std::str::from_utf8(n.as_bytes()).is_err() || v.as_ref().map_or(false, |v| std::str::from_utf8(v.as_bytes()).is_err()) {
            bad = Some("a string that is not UTF-8".to_string());
        }
        items.push((n.into_bytes(), v.map(|v| v.into_bytes())));
        if items.len() > len + 1 {
            bad = Some(format!("{} items from {} bytes", items.len(), len));
            return (items, bad);
        }
    }
    for _ in 0..3 {
        if let Some((n, v)) = it.next() {
            bad = Some(format!("an item after the end: {:?} {:?}", n, v));
        }
    }
    (items, bad)
}

fn run_query(t: &[u8], callback: bool) -> Ran {
    let errors = Rc::new(RefCell::new(vec![]));
    let e = errors.clone();
    let mut it = QueryIterator::new(t);
    if callback {
        it.on_error(move |x| {
            e.borrow_mut().push(match x {
                QueryError::Name(b) => E::Name(b),
                QueryError::Value(b) => E::Value(b),
                #[allow(unreachable_patterns)]
                _ => E::Unknown,
            })
        });
    }
    let (items, bad) = drain(&mut it, t.len());
    let errors = errors.borrow().clone();
    Ran { items, errors, bad }
}

fn run_field(t: &[u8], delimiter: u8, normalize: bool, callback: bool) -> Ran {
    let errors = Rc::new(RefCell::new(vec![]));
    let e = errors.clone();
    let mut it = FieldIterator::new(t, delimiter, normalize);
    if callback {
        it.on_error(move |x| {
            e.borrow_mut().push(match x {
                FieldError::Name(b) => E::Name(b),
                FieldError::Value(b) => E::Value(b),
                #[allow(unreachable_patterns)]
                _ => E::Unknown,
            })
        });
    }
    let (items, bad) = drain(&mut it, t.len());
    let errors = errors.borrow().clone();
    Ran { items, errors, bad }
}

fn compare(what: &str, t: &[u8], got: &Ran, want: &Iterated) -> Check {
    if let Some(ref b) = got.bad {
        return Err(format!("{} of {}: {}", what, show(t), b));
    }
    ensure!(
        got.items == want.items,
        "{} of {} yields {}\n expected {} (errors {:?}, expected {:?})",
        what, show(t), show_items(&got.items), show_items(&want.items), got.errors, want.errors
    );
    let ok = match got.errors.len() {
        0 => want.errors.is_empty(),
        1 => want.errors.iter().any(|&w| e_eq(got.errors[0], w)),
        _ => false,
    };
    ensure!(ok, "{} of {} reports {:?}, expected {:?} (items {})", what, show(t), got.errors, want.errors, show_items(&got.items));
    Ok(())
}

/// The methods of an iterator that could be specialised agree with what repeated next() yields.
fn adaptors<I: Iterator<Item = (String, Option<String>)>>(s: &mut Src, what: &str, t: &[u8], items: &Items, mk: &dyn Fn() -> I) -> Check {
    let bytes = |x: (String, Option<String>)| (x.0.into_bytes(), x.1.map(|v| v.into_bytes()));
    let n = items.len();
    let k = s.below(n + 2);
    let way = s.below(8);
    let got: Items;
    let want: Items;
    match way {
        0 => {
            let mut it = mk();
            for i in 0..=n {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - i, "{} of {}: size_hint() promises {} items after {}, there are {}", what, show(t), lo, i, n);
                ensure!(hi.map_or(true, |h| h >= n - i), "{} of {}: size_hint() allows {:?} items after {}, there are {}", what, show(t), hi, i, n);
                it.next();
            }
            return Ok(());
        }
        1 => {
            let c = mk().count();
            ensure!(c == n, "{} of {}: count() is {}, expected {}", what, show(t), c, n);
            return Ok(());
        }
        2 => {
            got = mk().last().map(bytes).into_iter().collect();
            want = items.last().cloned().into_iter().collect();
        }
        3 => {
            let mut it = mk();
            let a = it.nth(k).map(bytes);
            got = a.into_iter().chain(it.map(bytes)).collect();
            want = items.iter().skip(k).cloned().collect();
        }
        4 => {
            got = mk().step_by(k + 1).map(bytes).collect();
            want = items.iter().step_by(k + 1).cloned().collect();
        }
        5 => {
            let mut it = mk();
            let mut v: Items = it.by_ref().take(k).map(bytes).collect();
            it.for_each(|x| v.push(bytes(x)));
            got = v;
            want = items.clone();
        }
        6 => {
            got = mk().fold(vec![], |mut v: Items, x| {
                v.push(bytes(x));
                v
            });
            want = items.clone();
        }
        _ => {
            let a = mk().map(bytes).max();
            got = a.into_iter().collect();
            want = items.iter().max().cloned().into_iter().collect();
        }
    }
    ensure!(got == want, "{} of {}: way {} with {} gives {}, expected {}", what, show(t), way, k, show_items(&got), show_items(&want));
    Ok(())
}

/// A callback that is set, or replaced, after some items gets the error that comes later.
fn late_query(s: &mut Src, t: &[u8], want: &Ran) -> Check {
    let k = s.below(want.items.len() + 1);
    let errors = Rc::new(RefCell::new(vec![]));
    let (wrong, e) = (Rc::new(RefCell::new(0)), errors.clone());
    let w = wrong.clone();
    let mut it = QueryIterator::new(t);
    if s.chance(128) {
        it.on_error(move |_| *w.borrow_mut() += 1);
    }
    let mut items: Items = vec![];
    for _ in 0..k {
        items.extend(it.next().map(|(n, v)| (n.into_bytes(), v.map(|v| v.into_bytes()))));
    }
    it.on_error(move |x| {
        e.borrow_mut().push(match x {
            QueryError::Name(b) => E::Name(b),
            QueryError::Value(b) => E::Value(b),
            #[allow(unreachable_patterns)]
            _ => E::Unknown,
        })
    });
    items.extend(it.map(|(n, v)| (n.into_bytes(), v.map(|v| v.into_bytes()))));
    let errors = errors.borrow().clone();
    ensure!(
        items == want.items && errors == want.errors && *wrong.borrow() == 0,
        "QueryIterator of {} with a callback set after {} items: {} errors {:?} and {} to the old one, expected {} errors {:?}",
        show(t), k, show_items(&items), errors, wrong.borrow(), show_items(&want.items), want.errors
    );
    Ok(())
}

fn late_field(s: &mut Src, t: &[u8], delimiter: u8, normalize: bool, want: &Ran) -> Check {
    let k = s.below(want.items.len() + 1);
    let errors = Rc::new(RefCell::new(vec![]));
    let (wrong, e) = (Rc::new(RefCell::new(0)), errors.clone());
    let w = wrong.clone();
    let mut it = FieldIterator::new(t, delimiter, normalize);
    if s.chance(128) {
        it.on_error(move |_| *w.borrow_mut() += 1);
    }
    let mut items: Items = vec![];
    for _ in 0..k {
        items.extend(it.next().map(|(n, v)| (n.into_bytes(), v.map(|v| v.into_bytes()))));
    }
    it.on_error(move |x| {
        e.borrow_mut().push(match x {
            FieldError::Name(b) => E::Name(b),
            FieldError::Value(b) => E::Value(b),
            #[allow(unreachable_patterns)]
            _ => E::Unknown,
        })
    });
    items.extend(it.map(|(n, v)| (n.into_bytes(), v.map(|v| v.into_bytes()))));
    let errors = errors.borrow().clone();
    ensure!(
        items == want.items && errors == want.errors && *wrong.borrow() == 0,
        "FieldIterator of {} with a callback set after {} items: {} errors {:?} and {} to the old one, expected {} errors {:?}",
        show(t), k, show_items(&items), errors, wrong.borrow(), show_items(&want.items), want.errors
    );
    Ok(())
}

// ------------------------------------------------------------------------------------------- C30

pub fn check_decode(t: &[u8], st: &mut Stats) -> Check {
    st.runs += 1;
    let got = run_decode(t);
    let (out, err) = m_decode(t);
    let mut errors: Vec<E> = err.into_iter().collect();
    if let Some(b) = not_utf8(&out) {
        errors.push(E::Byte(b));
    }
    let ok = match got {
        Ok(ref v) => errors.is_empty() && *v == out,
        Err(e) => errors.contains(&e),
    };
    ensure!(
        ok,
        "decode({}) = {}, expected {}",
        show(t),
        got.map(|v| show(&v)).unwrap_or_else(|e| format!("{:?}", e)),
        if errors.is_empty() { show(&out) } else { format!("{:?}", errors) }
    );
    Ok(())
}

/// One-byte changes.
fn mutations(s: &mut Src, st: &mut Stats, w: &mut Vec<u8>) {
    let n = s.range(1, 3);
    for _ in 0..n {
        st.class(mutate(s, w));
    }
}

fn c30(s: &mut Src, st: &mut Stats) -> Check {
    let text = if s.chance(4) {
        let n = s.range(1000, 30000);
        s.bulk(n).iter().map(|b| (b & 0x7F) as char).collect()
    } else {
        utf8_text(s, 500)
    };
    let mut w = vec![];
    encode(s, text.as_bytes(), b"", &mut w);
    st.runs += 1;
    let got = run_decode(&w);
    ensure!(
        got.as_ref().map(|v| &v[..]) == Ok(text.as_bytes()),
        "decode({}) = {}, expected {}",
        show(&w), got.map(|v| show(&v)).unwrap_or_else(|e| format!("{:?}", e)), show(text.as_bytes())
    );
    st.class_if(w.contains(&b'%'), "escapes");
    st.class_if(!text.is_ascii(), "multi-byte text");
    for _ in 0..3 {
        let mut m = w.clone();
        if s.chance(80) {
            // any escaped bytes: often not UTF-8
            let i = s.below(m.len() + 1);
            let n = s.range(1, 3);
            let mut e = vec![];
            for _ in 0..n {
                let b = s.byte();
                escape(s, b, &mut e);
            }
            m.splice(i..i, e);
        } else {
            mutations(s, st, &mut m);
        }
        st.class(if m_decode(&m).1.is_some() { "rejected" } else { "accepted" });
        check_decode(&m, st)?;
    }
    st.nontrivial(!w.is_empty(), &w);
    st.sample(|| show(&w));
    Ok(())
}

/// All strings of one and two bytes, all escapes, and all strings of six from a small alphabet.
fn c30_enum(i: u64, st: &mut Stats) -> Check {
    if i < 256 {
        let a = i as u8;
        check_decode(&[a], st)?;
        for b in 0..=255u8 {
            check_decode(&[a, b], st)?;
            check_decode(&[b'%', a, b], st)?;
            check_decode(&[b'x', b'%', a, b, b'y'], st)?;
            for esc in [[a, b, 0], [0xE2, a, b], [a, b, 0x80], [0xF0, a, b]] {
                let t: Vec<u8> = esc.iter().flat_map(|b| format!("%{:02X}", b).into_bytes()).collect();
                check_decode(&t, st)?;
            }
        }
        return Ok(());
    }
    words(b"a%+4F& \x80", 6, i - 256, &mut |w| check_decode(w, st))
}

/// All words over an alphabet up to a length that start with the symbol number `first`.
fn words(alphabet: &[u8], max: usize, first: u64, f: &mut dyn FnMut(&[u8]) -> Check) -> Check {
    fn go(alphabet: &[u8], w: &mut Vec<u8>, left: usize, f: &mut dyn FnMut(&[u8]) -> Check) -> Check {
        f(w)?;
        if left > 0 {
            for &b in alphabet {
                w.push(b);
                go(alphabet, w, left - 1, f)?;
                w.pop();
            }
        }
        Ok(())
    }
    go(alphabet, &mut vec![alphabet[first as usize]], max - 1, f)
}

// ------------------------------------------------------------------------------------------- C31

pub fn query_text(s: &mut Src, st: &mut Stats) -> (Vec<u8>, Items) {
    let n = match s.weighted(&[4, 80, 60, 30, 8]) {
        4 => s.range(4, 20),
        n => n,
    };
    let mut w = vec![];
    let mut items: Items = vec![];
    for i in 0..n {
        if i > 0 {
            w.push(*s.pick(b"&;"));
        }
        let mut name = utf8_text(s, 200);
        if name.is_empty() {
            name.push('n');
        }
        encode(s, name.as_bytes(), b"=&;", &mut w);
        let value = if s.chance(180) {
            w.push(b'=');
            let v = utf8_text(s, 200);
            encode(s, v.as_bytes(), b"&;", &mut w);
            Some(v.into_bytes())
        } else {
            None
        };
        items.push((name.into_bytes(), value));
    }
    st.class_if(n > 1, "several fields");
    (w, items)
}

pub fn check_query(t: &[u8], st: &mut Stats) -> Check {
    st.runs += 1;
    compare("QueryIterator", t, &run_query(t, true), &m_query(t))
}

fn c31(s: &mut Src, st: &mut Stats) -> Check {
    let (w, items) = query_text(s, st);
    st.runs += 1;
    compare("QueryIterator", &w, &run_query(&w, true), &Iterated { items, errors: vec![] })?;
    for _ in 0..3 {
        let mut m = w.clone();
        mutations(s, st, &mut m);
        st.class(if m_query(&m).errors.is_empty() { "accepted" } else { "rejected" });
        check_query(&m, st)?;
        if s.chance(80) {
            let r = run_query(&m, true);
            adaptors(s, "QueryIterator", &m, &r.items, &|| QueryIterator::new(&m))?;
            late_query(s, &m, &r)?;
        }
    }
    st.nontrivial(!w.is_empty(), &w);
    st.sample(|| show(&w));
    Ok(())
}

fn c31_enum(i: u64, st: &mut Stats) -> Check {
    if i < 256 {
        for b in 0..=255u8 {
            for t in [&[i as u8, b][..], &[b'a', i as u8, b], &[b'a', b'=', i as u8, b], &[b'a', b'%', i as u8, b], &[b'a', b'=', b'%', i as u8, b], &[b'a', b'=', b'%', i as u8, b, b'&', b'c']] {
                check_query(t, st)?;
            }
        }
        return Ok(());
    }
    words(b"a=&;%+4 \x80", 6, i - 256, &mut |w| check_query(w, st))
}

// ------------------------------------------------------------------------------------------- C32

const DELIMITERS: &[u8] = b";,&|:!#";

pub fn field_text(s: &mut Src, st: &mut Stats) -> (Vec<u8>, u8, bool, Items) {
    let delimiter = if s.chance(170) { b';' } else { *s.pick(DELIMITERS) };
    let normalize = s.chance(128);
    let n = match s.weighted(&[4, 80, 60, 30, 8]) {
        4 => s.range(4, 12),
        n => n,
    };
    let mut w = vec![];
    let mut items: Items = vec![];
    let ws = |s: &mut Src, w: &mut Vec<u8>| {
        if s.chance(110) {
            let n = s.range(1, 3);
            for _ in 0..n {
                w.push(*s.pick(b" \t"));
            }
        }
    };
    for i in 0..n {
        if i > 0 {
            w.push(delimiter);
        }
        ws(s, &mut w);
        let mut name: Vec<u8> = token(s, 100);
        for b in name.iter_mut() {
            if *b == delimiter {
                *b = b'/';
            }
        }
        if s.chance(40) {
            let i = s.below(name.len() + 1);
            name.insert(i, b'/');
        }
        w.extend_from_slice(&name);
        let mut value = None;
        if s.chance(190) {
            w.push(b'=');
            ws(s, &mut w);
            let v = utf8_text(s, 200);
            if s.chance(128) {
                st.class("quoted value");
                let mut v = v.into_bytes();
                v.retain(|&b| b >= 0x20 && b != 0x7F || b == b'\t' || s.chance(100));
                w.push(b'"');
                let mut i = 0;
                while i < v.len() {
                    let b = v[i];
                    // bytes of one character stay together
                    if !is_quoted(b) || b < 0x80 && s.chance(40) {
                        st.class("escape in quotes");
                        w.push(b'\\');
                    }
                    w.push(b);
                    i += 1;
                }
                w.push(b'"');
                ws(s, &mut w);
                value = Some(v);
            } else {
                let v: Vec<u8> = v.into_bytes().into_iter().filter(|&b| is_field(b) && b != delimiter).collect();
                let skip = v.iter().take_while(|&&b| b == b' ' || b == b'\t').count();
                let v = v[skip..].to_vec();
                w.extend_from_slice(&v);
                if v.is_empty() && i + 1 == n {
                    // nothing after the equal sign
                    value = None;
                } else {
                    value = Some(v);
                }
            }
        }
        if normalize {
            name.make_ascii_lowercase();
        }
        items.push((name, value));
    }
    if n == 0 {
        ws(s, &mut w);
    }
    st.class_if(n > 1, "several parameters");
    (w, delimiter, normalize, items)
}

pub fn check_field(t: &[u8], delimiter: u8, normalize: bool, st: &mut Stats) -> Check {
    st.runs += 1;
    compare(
        &format!("FieldIterator (delimiter {}, normalize {})", show(&[delimiter]), normalize),
        t,
        &run_field(t, delimiter, normalize, true),
        &m_field(t, delimiter, normalize),
    )
}

fn c32(s: &mut Src, st: &mut Stats) -> Check {
    let (w, delimiter, normalize, items) = field_text(s, st);
    st.runs += 1;
    compare(
        &format!("FieldIterator (delimiter {}, normalize {})", show(&[delimiter]), normalize),
        &w,
        &run_field(&w, delimiter, normalize, true),
        &Iterated { items, errors: vec![] },
    )?;
    check_field(&w, delimiter, !normalize, st)?;
    for _ in 0..3 {
        let mut m = w.clone();
        mutations(s, st, &mut m);
        st.class(if m_field(&m, delimiter, normalize).errors.is_empty() { "accepted" } else { "rejected" });
        check_field(&m, delimiter, normalize, st)?;
        if s.chance(80) {
            let r = run_field(&m, delimiter, normalize, true);
            adaptors(s, "FieldIterator", &m, &r.items, &|| FieldIterator::new(&m, delimiter, normalize))?;
            late_field(s, &m, delimiter, normalize, &r)?;
        }
    }
    st.nontrivial(!w.is_empty(), &w);
    st.sample(|| show(&w));
    Ok(())
}

fn c32_enum(i: u64, st: &mut Stats) -> Check {
    if i < 256 {
        let a = i as u8;
        for b in 0..=255u8 {
            for n in [false, true] {
                check_field(&[a, b], b';', n, st)?;
                check_field(&[b'x', a, b], b';', n, st)?;
                check_field(&[b'x', b'=', a, b], b';', n, st)?;
                check_field(&[b'x', b'=', b'"', a, b, b'"'], b';', n, st)?;
                check_field(&[b'x', b'=', b'"', b'y', b'"', a, b], b';', n, st)?;
            }
        }
        return Ok(());
    }
    let i = i - 256;
    words(b"aB=;\" \\/\x80,", 6, i, &mut |w| check_field(w, b';', true, st))?;
    words(b"aB=;\" \\/\x80,", 5, i, &mut |w| {
        check_field(w, b';', false, st)?;
        check_field(w, b',', true, st)
    })
}

// ------------------------------------------------------------------------------------------- C33

fn soup(s: &mut Src) -> Vec<u8> {
    let mut w = vec![];
    let n = s.range(1, 12);
    for _ in 0..n {
        match s.weighted(&[60, 90, 30, 20, 3, 10]) {
            5 => w.extend(crate::dict::any(s)),
            0 => {
                let n = s.len(60);
                w.extend(s.bytes(n));
            }
            1 => {
                let t: &[u8] = *s.pick(&[
                    &b"a=b"[..], b"&", b";", b"%", b"%4", b"%41", b"%FF", b"%C3%A9", b"+", b"=", b"\"", b"\\", b"a=\"", b"\";", b" ", b"\t",
                    b"/", b"A", b"\xC3", b"\xA9", b"\xFF", b"; B=C", b"a=\"b\\\"c\"", b"%4G",
                ]);
                w.extend_from_slice(t);
            }
            2 => w.push(s.byte()),
            3 => {
                let n = s.below(40);
                w.extend((0..n).map(|_| s.range(0x20, 0x7E) as u8));
            }
            _ => {
                let n = s.range(100, 20000);
                w.extend(s.bulk(n));
            }
        }
    }
    w
}

fn total(t: &[u8], delimiter: u8, st: &mut Stats) -> Check {
    // a copy of its own, so that reading past the end is noticed
    mem::fenced(&[t], t.len() % 5 == 4, |t| total_of(t[0], delimiter, st))
}

fn total_of(t: &[u8], delimiter: u8, st: &mut Stats) -> Check {
    if let Ok(v) = run_decode(t) {
        ensure!(std::str::from_utf8(&v).is_ok(), "decode({}) is not UTF-8", show(t));
        ensure!(v.len() <= t.len(), "decode({}) has {} bytes", show(t), v.len());
    }
    let pair = |what: &str, a: Ran, b: Ran| -> Check {
        for r in [&a, &b] {
            if let Some(ref m) = r.bad {
                return Err(format!("{} of {}: {}", what, show(t), m));
            }
        }
        ensure!(a.errors.len() <= 1, "{} of {} reports {:?}", what, show(t), a.errors);
        ensure!(a.items == b.items, "{} of {}: with a callback {}, without {}", what, show(t), show_items(&a.items), show_items(&b.items));
        let bytes: usize = a.items.iter().map(|i| i.0.len() + i.1.as_ref().map_or(0, |v| v.len())).sum();
        ensure!(bytes <= t.len(), "{} of {}: {} bytes", what, show(t), bytes);
        Ok(())
    };
    pair("QueryIterator", run_query(t, true), run_query(t, false))?;
    for n in [false, true] {
        pair(
            &format!("FieldIterator (delimiter {:#x}, normalize {})", delimiter, n),
            run_field(t, delimiter, n, true),
            run_field(t, delimiter, n, false),
        )?;
    }
    st.runs += 7;
    Ok(())
}

fn c33(s: &mut Src, st: &mut Stats) -> Check {
    let delimiter = match s.below(3) {
        0 => b';',
        1 => *s.pick(b",&=\"\\/ \tA\0\xFF"),
        _ => s.byte(),
    };
    let w = match s.below(4) {
        0 => query_text(s, st).0,
        1 => field_text(s, st).0,
        _ => soup(s),
    };
    let mut w = w;
    if s.chance(128) {
        mutations(s, st, &mut w);
    }
    st.nontrivial(!w.is_empty(), &w);
    st.sample(|| format!("delimiter {:#x}, {}", delimiter, show(&w)));
    total(&w, delimiter, st)?;
    if s.chance(60) {
        let r = run_query(&w, true);
        adaptors(s, "QueryIterator", &w, &r.items, &|| QueryIterator::new(&w))?;
        late_query(s, &w, &r)?;
        let normalize = s.chance(128);
        let r = run_field(&w, delimiter, normalize, true);
        adaptors(s, "FieldIterator", &w, &r.items, &|| FieldIterator::new(&w, delimiter, normalize))?;
        late_field(s, &w, delimiter, normalize, &r)?;
    }
    // every beginning of it
    if w.len() < 100 {
        for n in 0..w.len() {
            total(&w[..n], delimiter, st)?;
        }
    }
    Ok(())
}

fn c33_enum(i: u64, st: &mut Stats) -> Check {
    if i == 0 {
        total(b"", b';', st)?;
    }
    if i < 256 {
        let a = i as u8;
        total(&[a], b';', st)?;
        for b in 0..=255u8 {
            total(&[a, b], b';', st)?;
            total(&[b'a', b'=', b'"', b], a, st)?;
            total(&[b'A', b, b'=', b'b', a], a, st)?;
        }
        return Ok(());
    }
    words(b"a=;%\"\\ +F\xC3\xA9", 5, i - 256, &mut |w| total(w, b';', st))
}

// ------------------------------------------------------------------------------------------- C34

const CONTEXTS: u64 = 14;

/// One byte value in one context.
fn c34_enum(i: u64, st: &mut Stats) -> Check {
    let b = (i / CONTEXTS) as u8;
    let accept = |wire: Vec<u8>, plan: &Plan, tag: u16, want: &[u8], kind: Kind, ok: bool, st: &mut Stats| -> Check {
        for cuts in [vec![], (0..wire.len()).collect::<Vec<usize>>()] {
            let out = h1::run(plan, &slices(&wire, &cuts));
            st.runs += 1;
            if ok {
                let at = out.t.iter().position(|&x| x == tag);
                let got: Option<Vec<u8>> = at.map(|i| out.t[i + 1..].iter().take_while(|&&x| x < 0x100).map(|&x| x as u8).collect());
                ensure!(
                    out.end == End::Finished && got.as_ref().map(|g| &g[..]) == Some(want),
                    "byte {:#x} is not accepted in {}: {}", b, show(&wire), out.show()
                );
            } else {
                ensure!(out.end == End::Err(kind, Some(b)), "byte {:#x} in {}: {:?} instead of {:?}", b, show(&wire), out.end, kind);
            }
        }
        Ok(())
    };
    let field = b == b'\t' || (0x20..=0x7E).contains(&b) && b != b'"' || b >= 0x80;
    let quoted = field && b != b'\\';
    let token = b"!#$%&'*+-.^_`|~".contains(&b) || b.is_ascii_alphanumeric();
    let lower = b.to_ascii_lowercase();
    let head = |name: &[u8], value: &[u8]| -> Vec<u8> {
        let mut w = b"GET / HTTP/1.1\r\n".to_vec();
        w.extend_from_slice(name);
        w.push(b':');
        w.extend_from_slice(value);
        w.extend_from_slice(b"\r\n\r\n");
        w
    };
    match i % CONTEXTS {
        0 => {
            st.runs += 1;
            ensure!(is_header_field(b) == field, "is_header_field({:#x}) = {}", b, is_header_field(b));
            ensure!(is_quoted_header_field(b) == quoted, "is_quoted_header_field({:#x}) = {}", b, is_quoted_header_field(b));
            ensure!(lib_is_token(b) == token, "is_token({:#x}) = {}", b, lib_is_token(b));
            Ok(())
        }
        // header name, after a first byte; a colon ends it
        1 if b != b':' => accept(head(&[b'x', b, b'x'], b"v"), &Plan::head(false), HEADER_NAME, &[b'x', lower, b'x'], Kind::HeaderName, token, st),
        // header name, first byte; white space and line ends have a meaning of their own there
        2 if !b" \t\r:".contains(&b) => accept(head(&[b, b'x'], b"v"), &Plan::head(false), HEADER_NAME, &[lower, b'x'], Kind::HeaderName, token, st),
        // header value; quotes and line ends have a meaning of their own
        3 if b != b'"' && b != b'\r' => accept(head(b"x", &[b'a', b, b'a']), &Plan::head(false), h1::HEADER_VALUE, &[b'a', b, b'a'], Kind::HeaderValue, field, st),
        4 if !b"\" \t\r".contains(&b) => accept(head(b"x", &[b, b'a']), &Plan::head(false), h1::HEADER_VALUE, &[b, b'a'], Kind::HeaderValue, field, st),
        // quoted header value
        5 if b != b'"' && b != b'\\' => accept(head(b"x", &[b'"', b, b'"']), &Plan::head(false), h1::HEADER_VALUE, &[b'"', b, b'"'], Kind::HeaderValue, quoted, st),
        // chunk extension name
        6 if !b"=;\r".contains(&b) => {
            let mut w = b"1;x".to_vec();
            w.push(b);
            w.extend_from_slice(b"y=v\r\n1\r\n0\r\n\r\n");
            accept(w, &Plan::chunked(), h1::EXT_NAME, &[b'x', lower, b'y'], Kind::ChunkExtensionName, token, st)
        }
        // chunk extension value, plain and quoted
        7 if !b"\";\r".contains(&b) => {
            let mut w = b"1;x=a".to_vec();
            w.push(b);
            w.extend_from_slice(b"a\r\n1\r\n0\r\n\r\n");
            accept(w, &Plan::chunked(), h1::EXT_VALUE, &[b'a', b, b'a'], Kind::ChunkExtensionValue, field, st)
        }
        8 if b != b'"' && b != b'\\' => {
            let mut w = b"1;x=\"a".to_vec();
            w.push(b);
            w.extend_from_slice(b"a\"\r\n1\r\n0\r\n\r\n");
            accept(w, &Plan::chunked(), h1::EXT_VALUE, &[b'a', b, b'a'], Kind::ChunkExtensionValue, quoted, st)
        }
        // multipart header name and value
        9 if b != b':' => {
            let mut w = b"--b\r\nx".to_vec();
            w.push(b);
            w.extend_from_slice(b"x:v\r\n\r\nd\r\n--b--");
            accept(w, &Plan::multipart(b"b", &[]), HEADER_NAME, &[b'x', lower, b'x'], Kind::HeaderName, token, st)
        }
        10 if b != b'"' && b != b'\r' => {
            let mut w = b"--b\r\nx:a".to_vec();
            w.push(b);
            w.extend_from_slice(b"a\r\n\r\nd\r\n--b--");
            accept(w, &Plan::multipart(b"b", &[]), h1::HEADER_VALUE, &[b'a', b, b'a'], Kind::HeaderValue, field, st)
        }
        // parameters
        11 if b != b'=' && b != b';' => {
            st.runs += 1;
            let r = run_field(&[b'x', b, b'y'], b';', false, true);
            let slash = b == b'/';
            ensure!(
                if token || slash { r.errors.is_empty() && r.items == vec![(vec![b'x', b, b'y'], None)] } else { r.errors == vec![E::Name(b)] && r.items.is_empty() },
                "byte {:#x} in a parameter name: {} {:?}", b, show_items(&r.items), r.errors
            );
            Ok(())
        }
        12 if b != b';' && b < 0x80 => {
            st.runs += 1;
            let r = run_field(&[b'x', b'=', b'a', b, b'a'], b';', false, true);
            ensure!(
                if field { r.errors.is_empty() && r.items == vec![(vec![b'x'], Some(vec![b'a', b, b'a']))] } else { r.errors == vec![E::Value(b)] && r.items.is_empty() },
                "byte {:#x} in a parameter value: {} {:?}", b, show_items(&r.items), r.errors
            );
            Ok(())
        }
        13 if b != b'"' && b != b'\\' && b < 0x80 => {
            st.runs += 1;
            let r = run_field(&[b'x', b'=', b'"', b'a', b, b'a', b'"'], b';', false, true);
            ensure!(
                if quoted { r.errors.is_empty() && r.items == vec![(vec![b'x'], Some(vec![b'a', b, b'a']))] } else { r.errors == vec![E::Value(b)] && r.items.is_empty() },
                "byte {:#x} in a quoted parameter value: {} {:?}", b, show_items(&r.items), r.errors
            );
            Ok(())
        }
        _ => Ok(()),
    }
}

/// Random strings of one class, with at most one other byte.
fn c34(s: &mut Src, st: &mut Stats) -> Check {
    let n = s.range(1, 40);
    let kind = s.below(3);
    let class: fn(u8) -> bool = match kind {
        0 => is_token,
        1 => |b| is_field(b) && b != b' ' && b != b'\t',
        _ => is_quoted,
    };
    let lib: fn(u8) -> bool = match kind {
        0 => lib_is_token,
        1 => is_header_field,
        _ => is_quoted_header_field,
    };
    let mut v: Vec<u8> = (0..n)
        .map(|_| {
            let b = s.byte();
            if class(b) {
                b
            } else {
                b'k'
            }
        })
        .collect();
    ensure!(v.iter().all(|&b| lib(b)), "the classification of a byte of {} is wrong", show(&v));
    let mut wrong = None;
    if s.chance(128) {
        let b = s.byte();
        let special: &[u8] = match kind {
            0 => b":\r \t",
            1 => b"\"\r \t",
            _ => b"\"\\\r",
        };
        if !class(b) && !special.contains(&b) {
            ensure!(!lib(b), "the classification of {:#x} is wrong", b);
            let i = s.below(v.len());
            v[i] = b;
            wrong = Some((i, b));
        }
    }
    let (plan, mut w, tail): (Plan, Vec<u8>, &[u8]) = match s.below(3) {
        0 => (Plan::head(false), b"GET / HTTP/1.1\r\n".to_vec(), b"\r\n\r\n"),
        1 => (Plan::chunked(), b"0\r\n".to_vec(), b"\r\n\r\n"),
        _ => (Plan::multipart(b"b", &[]), b"--b\r\n".to_vec(), b"\r\n\r\nd\r\n--b--"),
    };
    match kind {
        0 => {
            w.extend_from_slice(&v);
            w.extend_from_slice(b":v");
        }
        1 => {
            w.extend_from_slice(b"x:");
            w.extend_from_slice(&v);
        }
        _ => {
            w.extend_from_slice(b"x:\"");
            w.extend_from_slice(&v);
            w.push(b'"');
        }
    }
    w.extend_from_slice(tail);
    st.class(["token", "header field", "quoted header field"][kind]);
    st.class(if wrong.is_some() { "one byte of another class" } else { "one class" });
    st.nontrivial(true, &w);
    st.sample(|| format!("{}; {}", plan.show(), show(&w)));
    let cuts = s.cuts(w.len());
    for cuts in [&cuts[..], &[]] {
        let out = h1::run(&plan, &slices(&w, cuts));
        st.runs += 1;
        match wrong {
            None => {
                let tag = if kind == 0 { HEADER_NAME } else { h1::HEADER_VALUE };
                let at = out.t.iter().position(|&x| x == tag);
                let got: Vec<u8> = at.map_or(vec![], |i| out.t[i + 1..].iter().take_while(|&&x| x < 0x100).map(|&x| x as u8).collect());
                let want = match kind {
                    0 => v.to_ascii_lowercase(),
                    1 => v.clone(),
                    _ => [b"\"", &v[..], b"\""].concat(),
                };
                ensure!(out.end == End::Finished && got == want, "{} in {}: {}", show(&v), show(&w), out.show());
            }
            Some((_, b)) => {
                let k = if kind == 0 { Kind::HeaderName } else { Kind::HeaderValue };
                ensure!(out.end == End::Err(k, Some(b)), "byte {:#x} in {}: {}", b, show(&w), out.show());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C35

/// Names and values from the body parser; None if it fails.
fn by_body(t: &[u8], cuts: &[usize]) -> Option<Items> {
    let plan = Plan::url(t.len());
    debug_assert!(plan.mode == Mode::Url);
    let out = h1::run(&plan, &slices(t, cuts));
    if out.end != End::Finished {
        return None;
    }
    let mut items: Items = vec![];
    let mut into_value = false;
    for &x in &out.t {
        match x {
            URL_BEGIN => {
                items.push((vec![], None));
                into_value = false;
            }
            URL_NAME => into_value = false,
            URL_VALUE => {
                into_value = true;
                if let Some(i) = items.last_mut() {
                    i.1.get_or_insert_with(Vec::new);
                }
            }
            x if x < 0x100 => {
                if let Some(i) = items.last_mut() {
                    if into_value {
                        i.1.get_or_insert_with(Vec::new).push(x as u8);
                    } else {
                        i.0.push(x as u8);
                    }
                }
            }
            _ => {}
        }
    }
    Some(items)
}

fn by_query(t: &[u8]) -> Option<Items> {
    let r = run_query(t, true);
    if r.errors.is_empty() && r.bad.is_none() {
        Some(r.items)
    } else {
        None
    }
}

fn by_decode(t: &[u8]) -> Option<Items> {
    let mut items = vec![];
    let mut fields: Vec<&[u8]> = t.split(|&b| b == b'&' || b == b';').collect();
    if fields.last().map_or(false, |f| f.is_empty()) {
        fields.pop();
    }
    for f in fields {
        match f.iter().position(|&b| b == b'=') {
            Some(i) => items.push((run_decode(&f[..i]).ok()?, Some(run_decode(&f[i + 1..]).ok()?))),
            None => items.push((run_decode(f).ok()?, None)),
        }
    }
    Some(items)
}

/// The body parser reports nothing for an empty value.
fn same(a: &Option<Items>, b: &Option<Items>) -> bool {
    fn n(i: &Option<Items>) -> Option<Items> {
        i.as_ref().map(|i| i.iter().map(|x| (x.0.clone(), x.1.clone().filter(|v| !v.is_empty()))).collect())
    }
    n(a) == n(b)
}

pub fn agree(t: &[u8], cuts: &[usize], st: &mut Stats) -> Check {
    let (a, b, c, d) = (by_body(t, &[]), by_query(t), by_decode(t), by_body(t, cuts));
    st.runs += 4;
    let s = |i: &Option<Items>| i.as_ref().map_or("an error".to_string(), |i| show_items(&i[..i.len().min(200)].to_vec()));
    ensure!(
        same(&a, &b) && b == c && same(&a, &d),
        "{}: as a body {}\n in pieces {}\n as a query {}\n by hand {}", show(t), s(&a), s(&d), s(&b), s(&c)
    );
    Ok(())
}

/// The domain on which all must agree: see DESIGN.md.
fn comparable(t: &[u8]) -> bool {
    if t.is_empty() || b"=&;".contains(&t[0]) {
        return false;
    }
    // an escape that the end of the text cuts off is not an error for the body parser
    let n = t.len();
    if t[n - 1] == b'%' || n > 1 && t[n - 2] == b'%' {
        return false;
    }
    // the body parser does not look at the text behind the bytes
    let q = m_query(t);
    if q.errors.is_empty() {
        return true;
    }
    // is there an error other than bad UTF-8?
    let mut syntax = false;
    let mut i = 0;
    while i < n {
        match t[i] {
            b'%' => {
                if i + 2 < n && hex(t[i + 1]).is_some() && hex(t[i + 2]).is_some() {
                    i += 2;
                } else {
                    syntax = true;
                    break;
                }
            }
            0x21..=0x7E => {}
            _ => {
                syntax = true;
                break;
            }
        }
        i += 1;
    }
    syntax
}

fn c35(s: &mut Src, st: &mut Stats) -> Check {
    let (w, items) = query_text(s, st);
    if w.is_empty() {
        return Ok(());
    }
    let cuts = s.cuts(w.len());
    agree(&w, &cuts, st)?;
    let a = by_query(&w);
    ensure!(a.as_ref() == Some(&items), "{} as a query: {}", show(&w), a.as_ref().map_or("an error".into(), show_items));
    st.nontrivial(w.len() > 1, &w);
    st.sample(|| show(&w));
    for _ in 0..3 {
        let mut m = w.clone();
        mutations(s, st, &mut m);
        if comparable(&m) {
            st.class(if m_query(&m).errors.is_empty() { "accepted by all" } else { "rejected by all" });
            agree(&m, &cuts, st)?;
        }
    }
    // a byte or escape that is wrong anywhere
    let mut m = w.clone();
    let i = s.below(m.len() + 1);
    if s.chance(128) {
        let b = *s.pick(&[0u8, 9, 10, 13, 0x1F, 0x20, 0x7F, 0x80, 0xC3, 0xFF]);
        m.insert(i, b);
    } else {
        let (a, b) = (s.byte(), s.byte());
        if hex(a).is_none() || hex(b).is_none() {
            m.splice(i..i, [b'%', a, b].iter().cloned());
        } else {
            return Ok(());
        }
    }
    if comparable(&m) {
        let r = [by_body(&m, &[]), by_body(&m, &cuts), by_query(&m), by_decode(&m)];
        st.runs += 4;
        ensure!(
            r.iter().all(|r| r.is_none()),
            "{} is accepted: [body, body in pieces, query, by hand] = {:?}", show(&m), r.iter().map(|r| r.is_some()).collect::<Vec<_>>()
        );
    }
    Ok(())
}

fn c35_enum(i: u64, st: &mut Stats) -> Check {
    words(b"a4%F+ =&;", 6, i, &mut |w| if comparable(w) { agree(w, &[1, 2, 3, 4, 5], st) } else { Ok(()) })
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, enumerated, e: fn(u64, &mut Stats) -> Check, quick, thorough, rule| {
        v.push(Prop { id, f, enumerated, e, long: 0, l: super::no_enum, quick, thorough, rule })
    };
    let _ = no_enum;
    add("C30", c30, 256 + 8, c30_enum, 2_500_000, 150_000_000, "Random text in a random encoding must decode to itself; three changed versions must give what a reference decoder gives. Enumerated on top: all strings of one or two bytes, all escapes, all words up to six symbols over 8. Non-trivial: text not empty.");
    add("C31", c31, 256 + 9, c31_enum, 4_100_000, 246_000_000, "Random fields in a random encoding must be yielded; three changed versions are compared with a reference iterator (fields before the error, kind and byte). Enumerated on top: all pairs of bytes in six places, all words up to six symbols over 9. Non-trivial: query not empty.");
    add("C32", c32, 256 + 10, c32_enum, 3_300_000, 198_000_000, "Random parameters (plain, quoted, escaped, with white space, seven delimiters) must be yielded; three changed versions are compared with a reference iterator. Enumerated on top: all pairs of bytes in five places, all words up to six symbols over 10. Non-trivial: list not empty.");
    add("C33", c33, 256 + 11, c33_enum, 1_000_000, 60_000_000, "Arbitrary bytes, token soup and changed inputs with every delimiter, and every beginning of them; built with overflow and unchecked-access checks. Enumerated on top: all strings of two bytes, all words up to five symbols over 11. Non-trivial: input not empty.");
    add("C34", c34, 256 * CONTEXTS, c34_enum, 9_000_000, 540_000_000, "Enumerated completely: 256 byte values x 14 contexts (classification functions, header names and values, quoted values, chunk extensions, multipart headers, parameters). On top, random strings of one class with at most one byte of another. Every case is non-trivial.");
    add("C35", c35, 9, c35_enum, 1_500_000, 90_000_000, "Random fields and changed versions of them through the body parser, the query iterator and decode(). Enumerated on top: all words up to six symbols over 9. Non-trivial: more than one byte.");
}
