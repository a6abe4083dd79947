//! Small applications written from the documentation, that must get what was sent.

use super::{h2p, no_enum, Prop};
use crate::ensure;
use crate::h1gen;
use crate::h2;
use crate::stats::{Check, Stats};
use crate::tape::{show, slices, Rng, Src};
use http_box::fsm::Success;
use http_box::http1::{self, HttpHandler, State};
use http_box::{http2, util};
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------- the messages

type Fields = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Clone, PartialEq, Debug, Default)]
struct Part {
    fields: Fields,
    data: Vec<u8>,
}

#[derive(Clone, PartialEq, Debug)]
enum Body {
    None,
    Plain(Vec<u8>),
    Form(Fields),
    Parts(Vec<Part>),
}

/// A message as the application sees it.
#[derive(Clone, PartialEq, Debug)]
struct Message {
    /// method and path, or code and reason
    request: bool,
    what: Vec<u8>,
    text: Vec<u8>,
    query: Vec<(String, Option<String>)>,
    code: u16,
    version: (u16, u16),
    fields: Fields,
    body: Body,
    /// chunk extensions and trailers
    extensions: Fields,
    trailers: Fields,
}

fn list(f: &Fields) -> String {
    f.iter().map(|p| format!("{}={}", show(&p.0), show(&p.1))).collect::<Vec<_>>().join(", ")
}

impl Message {
    fn show(&self) -> String {
        let body = match self.body {
            Body::None => "no body".to_string(),
            Body::Plain(ref d) => format!("body {}", show(d)),
            Body::Form(ref f) => format!("form {}", list(f)),
            Body::Parts(ref p) => p.iter().map(|p| format!("part [{}] {}", list(&p.fields), show(&p.data))).collect::<Vec<_>>().join(" "),
        };
        format!(
            "{} {} {} {:?} {:?} [{}] {} [{}] [{}]",
            show(&self.what), self.code, show(&self.text), self.query, self.version, list(&self.fields), body, list(&self.extensions), list(&self.trailers)
        )
    }
}

const RESERVED: [&[u8]; 3] = [b"content-type", b"content-length", b"transfer-encoding"];

fn field(s: &mut Src, m: &mut h1gen::Msg, to: &mut Fields) {
    loop {
        let name = h1gen::header_name(s);
        if RESERVED.contains(&&name.to_ascii_lowercase()[..]) {
            m.wire.extend_from_slice(b"X: y\r\n");
            to.push((b"x".to_vec(), b"y".to_vec()));
            return;
        }
        let (wire, val) = h1gen::header_value(s);
        m.wire.extend_from_slice(&name);
        m.wire.push(b':');
        m.wire.extend_from_slice(&wire);
        m.wire.extend_from_slice(b"\r\n");
        to.push((name.to_ascii_lowercase(), val));
        return;
    }
}

fn any_fields(s: &mut Src, m: &mut h1gen::Msg, to: &mut Fields) {
    for _ in 0..s.weighted(&[60, 60, 40, 20]) {
        field(s, m, to);
    }
}

/// A field with a meaning to the application; the name in some capitalisation.
fn known(s: &mut Src, name: &str, value: &[u8], m: &mut h1gen::Msg, to: &mut Fields) {
    let mut n = name.as_bytes().to_vec();
    match s.below(3) {
        0 => (),
        1 => n.make_ascii_lowercase(),
        _ => {
            for b in n.iter_mut() {
                if s.chance(100) && b.is_ascii_alphabetic() {
                    *b ^= 0x20;
                }
            }
        }
    }
    to.push((n.to_ascii_lowercase(), value.to_vec()));
    m.wire.extend_from_slice(&n);
    m.wire.extend_from_slice(*s.pick(&[&b": "[..], b":", b":  ", b":\t"]));
    m.wire.extend_from_slice(value);
    m.wire.extend_from_slice(b"\r\n");
}

fn text(s: &mut Src, max: usize) -> String {
    let mut t: String = h1gen::utf8_text(s, max);
    if t.is_empty() {
        t.push('n');
    }
    t
}

fn message(s: &mut Src, st: &mut Stats, wire: &mut Vec<u8>) -> Message {
    let mut m = h1gen::Msg::default();
    let mut g = Message {
        request: s.chance(170),
        what: vec![],
        text: vec![],
        query: vec![],
        code: 0,
        version: (1, 1),
        fields: vec![],
        body: Body::None,
        extensions: vec![],
        trailers: vec![],
    };
    let version: &[u8] = *s.pick(&[&b"HTTP/1.1"[..], b"HTTP/1.0", b"HTTP/2.0", b"HTTP/12.345"]);
    g.version = match version[5..] {
        [b'1', b'.', d] => (1, (d - b'0') as u16),
        [b'2', ..] => (2, 0),
        _ => (12, 345),
    };
    for _ in 0..s.weighted(&[200, 20, 10]) {
        m.wire.extend_from_slice(b"\r\n");
    }
    if g.request {
        g.what = s.pick(&[&b"GET"[..], b"POST", b"PUT", b"HEAD", b"DELETE", b"OPTIONS", b"PATCH", b"HTML", b"H", b"TRACE", b"CONNECT", b"PROPFIND"]).to_vec();
        g.text = [b"/".to_vec(), (0..s.len(40)).map(|_| *s.pick(b"abcABC019-._~/:@!$'()*,;=%+")).collect()].concat();
        m.wire.extend_from_slice(&g.what);
        m.wire.push(b' ');
        m.wire.extend_from_slice(&g.text);
        for i in 0..s.weighted(&[80, 60, 60, 20]) {
            m.wire.push(if i == 0 { b'?' } else { *s.pick(b"&;") });
            let name = text(s, 60);
            h1gen::encode(s, name.as_bytes(), b"=&;", &mut m.wire);
            let value = if s.chance(180) {
                let v = h1gen::utf8_text(s, 60);
                m.wire.push(b'=');
                h1gen::encode(s, v.as_bytes(), b"&;", &mut m.wire);
                Some(v)
            } else {
                None
            };
            g.query.push((name, value));
        }
        m.wire.push(b' ');
        m.wire.extend_from_slice(version);
    } else {
        g.code = s.range(100, 599) as u16;
        g.text = s.pick(&[&b"OK"[..], b"Not Found", b"x", b"Temporary Redirect", b"I'm a teapot", b"Unavailable For Legal Reasons!"]).to_vec();
        m.wire.extend_from_slice(version);
        m.wire.extend_from_slice(format!(" {} ", g.code).as_bytes());
        m.wire.extend_from_slice(&g.text);
    }
    m.wire.extend_from_slice(b"\r\n");
    any_fields(s, &mut m, &mut g.fields);
    // the body, and how it is said to be
    let mut body: Vec<u8> = vec![];
    let mut closed = false;
    match s.weighted(&[40, 60, 60, 60]) {
        0 => (),
        1 => {
            let n = s.len(3000);
            body = h1gen::tricky_data(s, n);
            g.body = Body::Plain(body.clone());
            st.class("plain body");
        }
        2 => {
            let mut f = vec![];
            for i in 0..s.range(1, 4) {
                if i > 0 {
                    body.push(*s.pick(b"&;"));
                }
                let mut n = h1gen::any_text(s, 60);
                if n.is_empty() {
                    n.push(b'n');
                }
                let v = h1gen::any_text(s, 200);
                h1gen::encode(s, &n, b"=&;", &mut body);
                if !v.is_empty() || s.chance(128) {
                    body.push(b'=');
                }
                h1gen::encode(s, &v, b"&;", &mut body);
                f.push((n, v));
            }
            let t = *s.pick(&[&b"application/x-www-form-urlencoded"[..], b"application/x-www-form-urlencoded; charset=utf-8"]);
            known(s, "Content-Type", t, &mut m, &mut g.fields);
            g.body = Body::Form(f);
            st.class("form body");
        }
        _ => {
            let mut b: Vec<u8> = h1gen::boundary(s).into_iter().filter(|b| h1gen::is_token(*b)).take(70).collect();
            if b.is_empty() {
                b.push(b'b');
            }
            let mut parts = vec![];
            let mut x = h1gen::Msg::default();
            x.wire.extend_from_slice(b"--");
            x.wire.extend_from_slice(&b);
            for _ in 0..s.range(1, 4) {
                x.wire.extend_from_slice(b"\r\n");
                let mut p = Part::default();
                any_fields(s, &mut x, &mut p.fields);
                let (data, _) = h1gen::part_data(s, &b);
                p.data = data;
                if s.chance(80) {
                    if s.chance(128) {
                        p.data.extend_from_slice(b"\r\n--");
                        p.data.extend_from_slice(&b);
                        p.data.extend_from_slice(b"\r\nx");
                    }
                    let n = p.data.len().to_string();
                    known(s, "Content-Length", n.as_bytes(), &mut x, &mut p.fields);
                    any_fields(s, &mut x, &mut p.fields);
                }
                x.wire.extend_from_slice(b"\r\n");
                x.wire.extend_from_slice(&p.data);
                x.wire.extend_from_slice(b"\r\n--");
                x.wire.extend_from_slice(&b);
                parts.push(p);
            }
            x.wire.extend_from_slice(b"--");
            body = x.wire;
            let mut t = s.pick(&[&b"multipart/form-data; boundary="[..], b"multipart/mixed;charset=\"a;b\"; boundary="]).to_vec();
            if s.chance(128) {
                t.push(b'"');
                t.extend_from_slice(&b);
                t.push(b'"');
            } else {
                t.extend_from_slice(&b);
            }
            known(s, "Content-Type", &t, &mut m, &mut g.fields);
            g.body = Body::Parts(parts);
            closed = true;
            st.class("multipart body");
        }
    }
    let none = g.body == Body::None;
    if !none && s.chance(100) {
        st.class("chunked");
        known(s, "Transfer-Encoding", b"chunked", &mut m, &mut g.fields);
        any_fields(s, &mut m, &mut g.fields);
        m.wire.extend_from_slice(b"\r\n");
        let mut rest = &body[..];
        while !rest.is_empty() {
            let n = if s.chance(128) { 1 + s.below(rest.len().min(20)) } else { 1 + s.below(rest.len()) };
            m.wire.extend_from_slice(format!("{:x}", n).as_bytes());
            if s.chance(60) {
                let name: Vec<u8> = h1gen::token(s, 20);
                let value: Vec<u8> = h1gen::token(s, 20);
                m.wire.push(b';');
                m.wire.extend_from_slice(&name);
                if s.chance(160) {
                    m.wire.push(b'=');
                    m.wire.extend_from_slice(&value);
                    g.extensions.push((name.to_ascii_lowercase(), value));
                } else {
                    g.extensions.push((name.to_ascii_lowercase(), vec![]));
                }
            }
            m.wire.extend_from_slice(b"\r\n");
            m.wire.extend_from_slice(&rest[..n]);
            m.wire.extend_from_slice(b"\r\n");
            rest = &rest[n..];
        }
        m.wire.extend_from_slice(b"0\r\n");
        any_fields(s, &mut m, &mut g.trailers);
        m.wire.extend_from_slice(b"\r\n");
    } else {
        if !none && !closed {
            let n = body.len().to_string();
            known(s, "Content-Length", n.as_bytes(), &mut m, &mut g.fields);
            any_fields(s, &mut m, &mut g.fields);
        }
        m.wire.extend_from_slice(b"\r\n");
        m.wire.extend_from_slice(&body);
    }
    wire.extend_from_slice(&m.wire);
    g
}

// ---------------------------------------------------------------------------------- the application

/// Input as it arrives.
struct Conn<'a> {
    slices: Vec<&'a [u8]>,
    i: usize,
    /// bytes taken, in all
    pos: usize,
    empty: usize,
}

impl<'a> Conn<'a> {
    fn rest(&mut self) -> Result<&'a [u8], String> {
        while self.i < self.slices.len() && self.slices[self.i].is_empty() {
            self.i += 1;
        }
        if self.i == self.slices.len() {
            self.empty += 1;
            if self.empty > 2000 {
                return Err("more input is expected".into());
            }
            return Ok(b"");
        }
        Ok(self.slices[self.i])
    }

    fn took(&mut self, n: usize) -> Result<(), String> {
        if self.i == self.slices.len() {
            return if n == 0 { Ok(()) } else { Err("more was taken than was given".into()) };
        }
        if n > self.slices[self.i].len() {
            return Err("more was taken than was given".into());
        }
        self.pos += n;
        self.slices[self.i] = &self.slices[self.i][n..];
        Ok(())
    }

    fn is_end(&self) -> bool {
        self.slices[self.i..].iter().all(|s| s.is_empty())
    }
}

/// The handler: as in examples/http1_head_parsing.md, for all phases.
struct Handler {
    name: Vec<u8>,
    value: Vec<u8>,
    state: State,
    fields: Fields,
    initial_finished: bool,
    headers_finished: bool,
    body_finished: bool,
    method: Vec<u8>,
    url: Vec<u8>,
    status: Vec<u8>,
    code: u16,
    version: (u16, u16),
    extension: (Vec<u8>, Vec<u8>),
    extensions: Fields,
    data: Vec<u8>,
    sizes: usize,
    parts: Vec<Part>,
    pairs: Fields,
    rng: Rng,
    pauses: u32,
}

impl Handler {
    fn new(rng: Rng, pauses: u32) -> Handler {
        Handler {
            name: vec![],
            value: vec![],
            state: State::None,
            fields: vec![],
            initial_finished: false,
            headers_finished: false,
            body_finished: false,
            method: vec![],
            url: vec![],
            status: vec![],
            code: 0,
            version: (0, 0),
            extension: (vec![], vec![]),
            extensions: vec![],
            data: vec![],
            sizes: 0,
            parts: vec![],
            pairs: vec![],
            rng,
            pauses,
        }
    }

    fn go_on(&mut self) -> bool {
        self.pauses == 0 || (self.rng.next() >> 40) as u32 % 256 >= self.pauses
    }

    fn flush_header(&mut self) {
        let f = (::std::mem::replace(&mut self.name, vec![]), ::std::mem::replace(&mut self.value, vec![]));
        match self.parts.last_mut() {
            Some(p) => p.fields.push(f),
            None => self.fields.push(f),
        }
    }

    fn get(fields: &Fields, name: &[u8]) -> Option<Vec<u8>> {
        fields.iter().rev().find(|f| f.0 == name).map(|f| f.1.clone())
    }
}

impl HttpHandler for Handler {
    fn content_length(&mut self) -> Option<usize> {
        let p = self.parts.last()?;
        String::from_utf8(Handler::get(&p.fields, b"content-length")?).ok()?.parse().ok()
    }
    fn on_header_name(&mut self, data: &[u8]) -> bool {
        if self.state == State::HeaderValue {
            self.flush_header();
            self.state = State::HeaderName;
        }
        self.name.extend_from_slice(data);
        self.go_on()
    }
    fn on_header_value(&mut self, data: &[u8]) -> bool {
        self.state = State::HeaderValue;
        self.value.extend_from_slice(data);
        self.go_on()
    }
    fn on_headers_finished(&mut self) -> bool {
        self.headers_finished = true;
        if self.state == State::HeaderValue {
            self.flush_header();
        }
        self.state = State::None;
        self.go_on()
    }
    fn on_initial_finished(&mut self) -> bool {
        self.initial_finished = true;
        self.go_on()
    }
    fn on_method(&mut self, data: &[u8]) -> bool {
        self.method.extend_from_slice(data);
        self.go_on()
    }
    fn on_status(&mut self, data: &[u8]) -> bool {
        self.status.extend_from_slice(data);
        self.go_on()
    }
    fn on_status_code(&mut self, code: u16) -> bool {
        self.code = code;
        self.go_on()
    }
    fn on_url(&mut self, data: &[u8]) -> bool {
        self.url.extend_from_slice(data);
        self.go_on()
    }
    fn on_version(&mut self, major: u16, minor: u16) -> bool {
        self.version = (major, minor);
        self.go_on()
    }
    fn on_body_finished(&mut self) -> bool {
        self.body_finished = true;
        self.go_on()
    }
    fn on_chunk_data(&mut self, data: &[u8]) -> bool {
        self.data.extend_from_slice(data);
        self.go_on()
    }
    fn on_chunk_length(&mut self, n: usize) -> bool {
        self.sizes += n;
        self.go_on()
    }
    fn on_chunk_extension_name(&mut self, data: &[u8]) -> bool {
        self.extension.0.extend_from_slice(data);
        self.go_on()
    }
    fn on_chunk_extension_value(&mut self, data: &[u8]) -> bool {
        self.extension.1.extend_from_slice(data);
        self.go_on()
    }
    fn on_chunk_extension_finished(&mut self) -> bool {
        let e = ::std::mem::replace(&mut self.extension, (vec![], vec![]));
        self.extensions.push(e);
        self.go_on()
    }
    fn on_multipart_begin(&mut self) -> bool {
        self.parts.push(Part::default());
        self.headers_finished = false;
        self.go_on()
    }
    fn on_multipart_data(&mut self, data: &[u8]) -> bool {
        if let Some(p) = self.parts.last_mut() {
            p.data.extend_from_slice(data);
        }
        self.go_on()
    }
    fn on_url_encoded_begin(&mut self) -> bool {
        self.pairs.push((vec![], vec![]));
        self.go_on()
    }
    fn on_url_encoded_name(&mut self, data: &[u8]) -> bool {
        if let Some(p) = self.pairs.last_mut() {
            p.0.extend_from_slice(data);
        }
        self.go_on()
    }
    fn on_url_encoded_value(&mut self, data: &[u8]) -> bool {
        if let Some(p) = self.pairs.last_mut() {
            p.1.extend_from_slice(data);
        }
        self.go_on()
    }
}

/// Call the parser until its phase is finished.
fn finish(p: &mut http1::Parser<Handler>, h: &mut Handler, c: &mut Conn) -> Result<(), String> {
    loop {
        match p.resume(h, c.rest()?) {
            Ok(Success::Eos(n)) => c.took(n)?,
            Ok(Success::Callback(n)) => c.took(n)?,
            Ok(Success::Finished(n)) => {
                return c.took(n);
            }
            Err(e) => {
                return Err(format!("{}, in state {:?}", e, p.state()));
            }
            #[allow(unreachable_patterns)]
            _ => panic!("an outcome that is not documented"),
        }
    }
}

fn form(p: &mut http1::Parser<Handler>, n: usize, mut h: Handler, c: &mut Conn) -> Result<Fields, String> {
    p.init_url_encoded();
    p.set_length(n);
    finish(p, &mut h, c)?;
    if !h.body_finished {
        return Err("on_body_finished() is missing".into());
    }
    Ok(h.pairs)
}

fn parts(boundary: &[u8], mut h: Handler, c: &mut Conn) -> Result<Vec<Part>, String> {
    let mut p = http1::Parser::new();
    p.init_multipart();
    p.set_boundary(boundary);
    finish(&mut p, &mut h, c)?;
    if !h.body_finished {
        return Err("on_body_finished() is missing".into());
    }
    // a part begins at each delimiter
    Ok(h.parts)
}

/// One message, with all that the head says about its body.
fn receive(p: &mut http1::Parser<Handler>, c: &mut Conn, rng: &mut Rng, pauses: u32) -> Result<Message, String> {
    let mut next = || Handler::new(Rng(rng.next()), pauses);
    let mut h = next();
    p.init_head();
    finish(p, &mut h, c)?;
    if !h.headers_finished || !h.initial_finished {
        return Err("the head is finished without the callbacks for that".into());
    }
    let mut g = Message {
        request: !h.method.is_empty(),
        what: h.method,
        text: h.status,
        query: vec![],
        code: h.code,
        version: h.version,
        fields: h.fields,
        body: Body::None,
        extensions: vec![],
        trailers: vec![],
    };
    if g.request {
        let at = h.url.iter().position(|b| *b == b'?').unwrap_or(h.url.len());
        g.text = h.url[..at].to_vec();
        if at < h.url.len() {
            let mut failed = None;
            g.query = util::QueryIterator::new(&h.url[at + 1..]).on_error(|e| failed = Some(format!("{}", e))).collect();
            if let Some(e) = failed {
                return Err(e);
            }
        }
    }
    let mut boundary = None;
    let mut is_form = false;
    if let Some(t) = Handler::get(&g.fields, b"content-type") {
        for (i, (name, value)) in util::FieldIterator::new(&t, b';', true).enumerate() {
            if i == 0 {
                is_form = name == "application/x-www-form-urlencoded";
            } else if name == "boundary" {
                boundary = value.map(|v| v.into_bytes());
            }
        }
    }
    let length: Option<usize> = Handler::get(&g.fields, b"content-length").and_then(|v| String::from_utf8(v).ok()).and_then(|v| v.parse().ok());
    if Handler::get(&g.fields, b"transfer-encoding").map_or(false, |v| v == b"chunked") {
        let mut h = next();
        p.init_chunked();
        finish(p, &mut h, c)?;
        if !h.body_finished || h.sizes != h.data.len() {
            return Err(format!("chunks of {} bytes in all, {} bytes of data, finished {}", h.sizes, h.data.len(), h.body_finished));
        }
        g.extensions = h.extensions;
        g.trailers = h.fields;
        let mut c = Conn { slices: vec![&h.data], i: 0, pos: 0, empty: 0 };
        g.body = match (boundary, is_form) {
            (Some(b), _) => Body::Parts(parts(&b, next(), &mut c)?),
            (_, true) => Body::Form(form(p, h.data.len(), next(), &mut c)?),
            _ => Body::Plain(h.data.clone()),
        };
    } else {
        g.body = match (boundary, is_form, length) {
            (Some(b), _, _) => Body::Parts(parts(&b, next(), c)?),
            (_, true, Some(n)) => Body::Form(form(p, n, next(), c)?),
            (_, _, Some(n)) => {
                let mut d = vec![];
                while d.len() < n {
                    let sl = c.rest()?;
                    let k = sl.len().min(n - d.len());
                    d.extend_from_slice(&sl[..k]);
                    c.took(k)?;
                }
                Body::Plain(d)
            }
            _ => Body::None,
        };
    }
    Ok(g)
}

fn c47(s: &mut Src, st: &mut Stats) -> Check {
    let mut wire = vec![];
    let mut sent = vec![];
    let mut ends = vec![];
    for _ in 0..s.range(1, 4) {
        sent.push(message(s, st, &mut wire));
        ends.push(wire.len());
    }
    let cuts = match s.below(4) {
        0 => ends[..ends.len() - 1].to_vec(),
        1 => (1..wire.len()).collect(),
        _ => s.cuts(wire.len()),
    };
    let pauses = *s.pick(&[0u32, 0, 10, 100, 256]);
    let mut rng = Rng(s.u32() as u64);
    st.class_if(pauses > 0, "with pauses");
    st.nontrivial(wire.len() > 60, &wire);
    st.sample(|| format!("{} messages, {}", sent.len(), show(&wire)));
    let mut c = Conn { slices: slices(&wire, &cuts), i: 0, pos: 0, empty: 0 };
    let mut p = http1::Parser::new();
    st.runs += 1;
    for (i, m) in sent.iter().enumerate() {
        let log = |pos: usize| format!("\n expected {}\n at byte {} of the connection {}\n cut at {:?}, {} of 256 callbacks pause", m.show(), pos, show(&wire), &cuts[..cuts.len().min(40)], pauses);
        match receive(&mut p, &mut c, &mut rng, pauses) {
            Err(e) => {
                return Err(format!("message {}: {}{}", i, e, log(c.pos)));
            }
            Ok(got) => {
                ensure!(got == *m, "message {} is {}{}", i, got.show(), log(c.pos));
                ensure!(c.pos == ends[i], "message {} ended at byte {} instead of {}{}", i, c.pos, ends[i], log(c.pos));
            }
        }
    }
    ensure!(c.is_end(), "something is left over");
    Ok(())
}

// ------------------------------------------------------------------------------------------- HTTP/2

#[derive(Clone, PartialEq, Debug, Default)]
struct Exchange {
    block: Vec<u8>,
    body: Vec<u8>,
    dependency: Option<(bool, u32, u8)>,
    ended: bool,
    reset: Option<u32>,
    window: u64,
    promised_by: Option<u32>,
}

/// What an application knows of a connection.
#[derive(Clone, PartialEq, Debug, Default)]
struct Session {
    streams: BTreeMap<u32, Exchange>,
    settings: BTreeMap<u16, u32>,
    settings_seen: usize,
    acks: usize,
    pings: Vec<(Vec<u8>, bool)>,
    away: Option<(u32, u32, Vec<u8>)>,
    other: Vec<(u8, u8, u32, Vec<u8>)>,
    /// all frames announced: length, type, flags, stream
    frames: Vec<(u32, u8, u8, u32)>,
}

struct Peer {
    session: Session,
    /// what may still come of the announced length
    left: u32,
    ty: u8,
    flags: u8,
    stream: u32,
    /// where the fragments go, as long as they are not finished
    target: u32,
    gone: bool,
    open: bool,
    trouble: Option<String>,
    rng: Rng,
    pauses: u32,
}

impl Peer {
    fn go_on(&mut self) -> bool {
        self.pauses == 0 || (self.rng.next() >> 40) as u32 % 256 >= self.pauses
    }
    fn stream(&mut self, n: u32) -> &mut Exchange {
        self.session.streams.entry(n).or_insert_with(Exchange::default)
    }
    fn piece(&mut self, data: &[u8], last: bool) {
        if data.len() > self.left as usize {
            self.trouble = Some(format!("{} bytes of data, {} of the frame are left", data.len(), self.left));
            return;
        }
        self.left -= data.len() as u32;
        self.open = !last;
    }
}

impl http2::HttpHandler for Peer {
    fn on_frame_format(&mut self, length: u32, ty: u8, flags: u8, stream: u32) -> bool {
        if self.open {
            self.trouble = Some(format!("a frame of type {} before the end of the data of one of type {}", ty, self.ty));
        }
        let (kind, flag) = (http2::FrameType::from_u8(ty), http2::Flags::from_u8(flags));
        self.left = length;
        self.ty = ty;
        self.flags = flags;
        self.stream = stream;
        self.session.frames.push((length, ty, flags, stream));
        match kind {
            http2::FrameType::Headers | http2::FrameType::Data | http2::FrameType::Ping | http2::FrameType::PushPromise | http2::FrameType::Continuation => self.open = true,
            http2::FrameType::Unsupported => {
                self.open = true;
                self.session.other.push((ty, flags, stream, vec![]));
            }
            http2::FrameType::Settings if flag.is_ack() => self.session.acks += 1,
            http2::FrameType::Settings => self.session.settings_seen += 1,
            _ => (),
        }
        match kind {
            http2::FrameType::Headers => {
                self.target = stream;
                self.stream(stream);
            }
            http2::FrameType::Ping => {
                let ack = flag.is_ack();
                self.session.pings.push((vec![], ack));
            }
            _ => (),
        }
        if (ty == 0 || ty == 1) && flag.is_end_stream() {
            self.stream(stream).ended = true;
        }
        self.go_on()
    }
    fn on_data(&mut self, data: &[u8], last: bool) -> bool {
        let n = self.stream;
        self.stream(n).body.extend_from_slice(data);
        self.piece(data, last);
        self.go_on()
    }
    fn on_headers(&mut self, exclusive: bool, dependency: u32, weight: u8) -> bool {
        let n = self.stream;
        // without the flag only padding is told
        if self.flags & h2::PRIO != 0 {
            self.stream(n).dependency = Some((exclusive, dependency, weight));
        }
        self.go_on()
    }
    fn on_headers_fragment(&mut self, data: &[u8], last: bool) -> bool {
        let n = self.target;
        self.stream(n).block.extend_from_slice(data);
        self.piece(data, last);
        self.go_on()
    }
    fn on_push_promise(&mut self, promised: u32) -> bool {
        self.target = promised;
        let by = self.stream;
        self.stream(promised).promised_by = Some(by);
        self.go_on()
    }
    fn on_priority(&mut self, exclusive: bool, dependency: u32, weight: u8) -> bool {
        let n = self.stream;
        self.stream(n).dependency = Some((exclusive, dependency, weight));
        self.go_on()
    }
    fn on_rst_stream(&mut self, code: u32) -> bool {
        let n = self.stream;
        self.stream(n).reset = Some(code);
        self.go_on()
    }
    fn on_settings(&mut self, id: u16, value: u32) -> bool {
        self.session.settings.insert(id, value);
        self.go_on()
    }
    fn on_window_update(&mut self, n: u32) -> bool {
        let id = self.stream;
        self.stream(id).window += n as u64;
        self.go_on()
    }
    fn on_ping(&mut self, data: &[u8], last: bool) -> bool {
        if let Some(p) = self.session.pings.last_mut() {
            p.0.extend_from_slice(data);
        }
        self.piece(data, last);
        self.go_on()
    }
    fn on_go_away(&mut self, stream: u32, code: u32) -> bool {
        self.session.away = Some((stream, code, vec![]));
        // debug data is told only if there is any
        self.gone = self.left > 8;
        self.go_on()
    }
    fn on_go_away_debug_data(&mut self, data: &[u8], last: bool) -> bool {
        if let Some(ref mut a) = self.session.away {
            a.2.extend_from_slice(data);
        }
        self.gone = !last;
        self.go_on()
    }
    fn on_unsupported(&mut self, data: &[u8], last: bool) -> bool {
        if let Some(p) = self.session.other.last_mut() {
            p.3.extend_from_slice(data);
        }
        self.piece(data, last);
        self.go_on()
    }
}

/// A frame with random padding, if its type allows it.
fn put(s: &mut Src, wire: &mut Vec<u8>, g: &mut Session, ty: u8, mut flags: u8, stream: u32, fixed: &[u8], data: &[u8]) {
    let pad = if matches!(ty, 0 | 1 | 5) && s.chance(70) { Some(*s.pick(&[0usize, 1, 2, 9, 40, 255])) } else { None };
    let len = fixed.len() + data.len() + pad.map_or(0, |p| p + 1);
    if pad.is_some() {
        flags |= h2::PADDED;
    }
    // the reserved bit means nothing
    let reserved = if s.chance(20) { 0x8000_0000 } else { 0 };
    wire.extend_from_slice(&h2::head(len, ty, flags, stream | reserved));
    g.frames.push((len as u32, ty, flags, stream));
    if let Some(p) = pad {
        wire.push(p as u8);
    }
    wire.extend_from_slice(fixed);
    wire.extend_from_slice(data);
    wire.extend((0..pad.unwrap_or(0)).map(|_| 0u8));
}

fn be(n: u32) -> [u8; 4] {
    [(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]
}

/// A block of header fields: a first frame and continuations.
fn block(s: &mut Src, wire: &mut Vec<u8>, g: &mut Session, ty: u8, flags: u8, stream: u32, fixed: &[u8]) -> Vec<u8> {
    let n = s.len(200);
    let b = s.bulk(n);
    let parts = s.weighted(&[60, 30, 20, 10]);
    let mut at: Vec<usize> = (0..parts).map(|_| s.below(n + 1)).collect();
    at.sort();
    at.push(n);
    let mut from = 0;
    for (i, &to) in at.iter().enumerate() {
        let end = if i == parts { 4 } else { 0 };
        if i == 0 {
            put(s, wire, g, ty, flags | end, stream, fixed, &b[from..to]);
        } else {
            put(s, wire, g, 9, end, stream, &[], &b[from..to]);
        }
        from = to;
    }
    b
}

fn c48(s: &mut Src, st: &mut Stats) -> Check {
    let mut wire = vec![];
    let mut g = Session::default();
    let ids: Vec<u32> = (0..s.range(1, 4)).map(|i| if s.chance(30) { s.u32() & 0x7FFF_FFFF } else { 2 * i as u32 + 1 }).collect();
    for _ in 0..s.range(1, 14) {
        let id = *s.pick(&ids);
        let priority = |s: &mut Src| {
            let (e, d, w) = (s.chance(128), s.u32() & 0x7FFF_FFFF, s.byte());
            (e, d, w, [&be(d | (e as u32) << 31)[..], &[w]].concat())
        };
        match s.weighted(&[60, 100, 15, 15, 20, 20, 12, 4, 20, 12]) {
            0 => {
                let end = s.chance(60);
                let mut flags = end as u8;
                let mut fixed = vec![];
                if s.chance(80) {
                    let (e, d, w, f) = priority(s);
                    flags |= h2::PRIO;
                    fixed = f;
                    g.streams.entry(id).or_insert_with(Exchange::default).dependency = Some((e, d, w));
                }
                let b = block(s, &mut wire, &mut g, 1, flags, id, &fixed);
                let x = g.streams.entry(id).or_insert_with(Exchange::default);
                x.block.extend_from_slice(&b);
                x.ended |= end;
                st.class("headers");
            }
            1 => {
                let end = s.chance(60);
                let n = s.len(2000);
                let d = h1gen::tricky_data(s, n);
                put(s, &mut wire, &mut g, 0, end as u8, id, &[], &d);
                let x = g.streams.entry(id).or_insert_with(Exchange::default);
                x.body.extend_from_slice(&d);
                x.ended |= end;
                st.class("data");
            }
            2 => {
                let (e, d, w, f) = priority(s);
                put(s, &mut wire, &mut g, 2, 0, id, &f, &[]);
                g.streams.entry(id).or_insert_with(Exchange::default).dependency = Some((e, d, w));
            }
            3 => {
                let c = s.u32();
                put(s, &mut wire, &mut g, 3, 0, id, &be(c), &[]);
                g.streams.entry(id).or_insert_with(Exchange::default).reset = Some(c);
            }
            4 => {
                if s.chance(60) {
                    put(s, &mut wire, &mut g, 4, 1, 0, &[], &[]);
                    g.acks += 1;
                } else {
                    let mut f = vec![];
                    for _ in 0..s.below(2) { // not more: known finding K1
                        let id = if s.chance(128) { s.range(1, 6) as u16 } else { s.u16() };
                        let v = s.u32();
                        f.extend_from_slice(&[(id >> 8) as u8, id as u8]);
                        f.extend_from_slice(&be(v));
                        g.settings.insert(id, v);
                    }
                    put(s, &mut wire, &mut g, 4, 0, 0, &f, &[]);
                    g.settings_seen += 1;
                }
            }
            5 => {
                let promised = s.u32() & 0x7FFF_FFFF;
                let b = block(s, &mut wire, &mut g, 5, 0, id, &be(promised));
                let x = g.streams.entry(promised).or_insert_with(Exchange::default);
                x.promised_by = Some(id);
                x.block.extend_from_slice(&b);
                st.class("promises");
            }
            6 => {
                let ack = s.chance(128);
                let d = s.bytes(8);
                put(s, &mut wire, &mut g, 6, ack as u8, 0, &[], &d);
                g.pings.push((d, ack));
            }
            7 => {
                let (id, c) = (s.u32() & 0x7FFF_FFFF, s.u32());
                let n = s.len(60);
                let d = s.bulk(n);
                put(s, &mut wire, &mut g, 7, 0, 0, &[be(id), be(c)].concat(), &d);
                g.away = Some((id, c, d));
            }
            8 => {
                let n = s.u32() & 0x7FFF_FFFF;
                let to = if s.chance(128) { id } else { 0 };
                put(s, &mut wire, &mut g, 8, 0, to, &be(n), &[]);
                g.streams.entry(to).or_insert_with(Exchange::default).window += n as u64;
            }
            _ => {
                let n = s.len(100);
                let (ty, flags, d) = (s.range(10, 255) as u8, s.byte() & !h2::PADDED, s.bulk(n));
                put(s, &mut wire, &mut g, ty, flags, id, &[], &d);
                g.other.push((ty, flags, id, d));
                st.class("unknown types");
            }
        }
    }
    let cuts = if s.chance(64) { (1..wire.len()).collect() } else { s.cuts(wire.len()) };
    let pauses = *s.pick(&[0u32, 0, 10, 100, 256]);
    st.class_if(pauses > 0, "with pauses");
    st.nontrivial(g.frames.len() > 1, &wire);
    st.sample(|| h2p::describe(&wire, &cuts));
    let mut h = Peer { session: Session::default(), left: 0, ty: 0, flags: 0, stream: 0, target: 0, gone: false, open: false, trouble: None, rng: Rng(s.u32() as u64), pauses };
    let mut c = Conn { slices: slices(&wire, &cuts), i: 0, pos: 0, empty: 0 };
    let mut p = http2::Parser::new();
    st.runs += 1;
    loop {
        let sl = c.rest()?;
        match p.resume(&mut h, sl) {
            Ok(Success::Eos(n)) => {
                c.took(n)?;
                if sl.is_empty() {
                    break;
                }
            }
            Ok(Success::Callback(n)) => c.took(n)?,
            r => {
                return Err(format!("{:?} at byte {}\n {}", r, c.pos, h2p::describe(&wire, &cuts)));
            }
        }
    }
    ensure!(c.is_end() && c.pos == wire.len(), "{} of {} bytes are taken", c.pos, wire.len());
    ensure!(h.trouble.is_none() && !h.open && !h.gone, "{:?}: data without an end, or an end too early\n {}", h.trouble, h2p::describe(&wire, &cuts));
    ensure!(h.session == g, "received {:?}\nsent {:?}\n {}", h.session, g, h2p::describe(&wire, &cuts));
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    let mut add = |id, f: fn(&mut Src, &mut Stats) -> Check, quick, thorough, rule| v.push(Prop { id, f, enumerated: 0, e: no_enum, long: 0, l: no_enum, quick, thorough, rule });
    add("C47", c47, 300_000, 18_000_000, "Connections of one to four requests and responses with random fields, query strings, and no, plain, form or multipart bodies, with and without chunks, extensions and trailers, in random slices and with pauses, are read by a small application that is written from the documentation: it learns from the fields of each head how to read the body. Non-trivial: more than 60 bytes.");
    add("C48", c48, 700_000, 42_000_000, "Connections of up to 14 HTTP/2 frames or header blocks on one to four streams, with padding, priorities, continuations, promises, settings, pings and unknown types, in random slices and with pauses, are read by a small application that keeps streams, settings and pings. Non-trivial: more than one frame.");
}
