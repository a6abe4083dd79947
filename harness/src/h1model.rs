//! A reference automaton for the four HTTP/1 grammars, one byte at a time, written from the grammar.

use crate::h1::*;
use crate::h1gen::{is_field, is_quoted, is_token};

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Lead,
    Detect(usize),
    Method,
    Url(bool),
    Http(usize),
    /// request?, digits read of the major number
    Major(bool, usize),
    Minor(bool, usize),
    Code(usize),
    /// something of it read?
    Reason(bool),
    InitialLf,
    LineStart,
    Name,
    ValueStart,
    Value,
    Quoted,
    Escaped,
    Lf1,
    Lf2,
    Size(usize),
    ExtNameStart,
    ExtName,
    ExtValueStart,
    ExtValue,
    ExtQuoted,
    ExtEscaped,
    SizeLf,
    Data,
    DataCr,
    DataLf,
    /// boundary line that has to match: bytes of "--boundary" matched
    Delim(usize),
    AfterDelim,
    CloseDelim,
    PartData,
    PartLen,
    PartLenCr,
    PartLenLf,
    PairStart,
    PairName,
    PairNameHex(Option<u8>),
    PairValue,
    PairValueHex(Option<u8>),
    Done,
}

pub struct Model<'a> {
    pub t: T,
    s: S,
    plan: &'a Plan,
    major: u16,
    minor: u16,
    code: u16,
    len: usize,
    /// bytes of "\r\n--boundary" matched inside part data
    pend: usize,
    delim: Vec<u8>,
    part: usize,
    had_header: bool,
    /// the input left the part of the grammar that is specified (see DESIGN.md)
    pub unspecified: bool,
    pub end: End,
    /// bytes taken, with the offending one
    pub used: usize,
}

fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

fn visible(b: u8) -> bool {
    (0x21..=0x7E).contains(&b)
}

impl<'a> Model<'a> {
    pub fn new(plan: &'a Plan) -> Model<'a> {
        let mut delim = b"\r\n--".to_vec();
        if let Some(ref b) = plan.boundary {
            delim.extend_from_slice(b);
        }
        Model {
            t: T::default(),
            s: match plan.mode {
                Mode::Head => {
                    if plan.fresh {
                        S::Detect(0)
                    } else {
                        S::Lead
                    }
                }
                Mode::Chunked => S::Size(0),
                Mode::Multipart => S::Delim(0),
                Mode::Url => S::PairStart,
            },
            plan,
            major: 0,
            minor: 0,
            code: 0,
            len: 0,
            pend: 0,
            delim,
            part: 0,
            had_header: false,
            unspecified: false,
            end: End::More,
            used: 0,
        }
    }

    pub fn state_name(&self) -> String {
        format!("{:?}", self.s)
    }

    pub fn run(plan: &'a Plan, wire: &[u8]) -> Model<'a> {
        let mut m = Model::new(plan);
        let limit = if plan.mode == Mode::Url {
            plan.length.unwrap_or(0).min(wire.len())
        } else {
            wire.len()
        };
        for &b in &wire[..limit] {
            m.step(b);
            if m.end != End::More {
                break;
            }
        }
        if m.end == End::More && plan.mode == Mode::Url && m.used == plan.length.unwrap_or(0) {
            // an escape cut off by the end of the body: accepted silently, not specified
            m.unspecified |= matches!(m.s, S::PairNameHex(_) | S::PairValueHex(_));
            m.t.mark(BODY_FINISHED);
            m.end = End::Finished;
        }
        m
    }

    /// The transcript with an interrupted element removed.
    pub fn norm(&self) -> Vec<u16> {
        let mut t = self.t.t.clone();
        cut_interrupted(&mut t, &self.end);
        t
    }

    fn err(&mut self, k: Kind, b: u8) -> S {
        self.end = End::Err(k, Some(b));
        S::Done
    }

    fn headers_done(&mut self) -> S {
        self.t.mark(HEADERS_FINISHED);
        match self.plan.mode {
            Mode::Multipart => {
                let l = if self.part == 0 { None } else { self.plan.parts.get(self.part - 1).cloned().unwrap_or(None) };
                match l {
                    Some(0) => S::PartLenCr,
                    Some(n) => {
                        self.len = n;
                        S::PartLen
                    }
                    None => {
                        self.pend = 0;
                        S::PartData
                    }
                }
            }
            Mode::Chunked => {
                self.t.mark(BODY_FINISHED);
                self.end = End::Finished;
                S::Done
            }
            _ => {
                self.end = End::Finished;
                S::Done
            }
        }
    }

    /// The size line of a chunk is complete up to its CR.
    fn exts_done(&mut self) -> S {
        self.t.mark(EXTS_FINISHED);
        S::SizeLf
    }

    pub fn step(&mut self, b: u8) {
        self.used += 1;
        self.s = self.next(b);
    }

    fn next(&mut self, b: u8) -> S {
        let ws = b == b' ' || b == b'\t';
        match self.s {
            S::Done => S::Done,
            S::Lead => {
                if ws || b == b'\r' || b == b'\n' {
                    S::Lead
                } else {
                    self.s = S::Detect(0);
                    self.next(b)
                }
            }
            S::Detect(n) => {
                if b == b"HTTP/"[n] {
                    if n == 4 {
                        S::Major(false, 0)
                    } else {
                        S::Detect(n + 1)
                    }
                } else if b.is_ascii_uppercase() {
                    self.t.data(METHOD, &b"HTTP"[..n]);
                    self.t.data(METHOD, &[b]);
                    S::Method
                } else if b == b' ' && n > 0 {
                    self.t.data(METHOD, &b"HTTP"[..n]);
                    S::Url(false)
                } else {
                    self.err(Kind::Method, b)
                }
            }
            S::Method => {
                if b.is_ascii_uppercase() {
                    self.t.data(METHOD, &[b]);
                    S::Method
                } else if b == b' ' {
                    S::Url(false)
                } else {
                    self.err(Kind::Method, b)
                }
            }
            S::Url(any) => {
                if visible(b) {
                    self.t.data(URL, &[b]);
                    S::Url(true)
                } else if any && b == b' ' {
                    S::Http(0)
                } else {
                    self.err(Kind::Url, b)
                }
            }
            S::Http(n) => {
                if b != b"HTTP/"[n] {
                    self.err(Kind::Version, b)
                } else if n == 4 {
                    S::Major(true, 0)
                } else {
                    S::Http(n + 1)
                }
            }
            S::Major(req, n) => {
                if n == 0 {
                    self.major = 0;
                    self.minor = 0;
                }
                if b.is_ascii_digit() && n < 3 {
                    self.major = self.major * 10 + (b - b'0') as u16;
                    S::Major(req, n + 1)
                } else if b == b'.' && n > 0 {
                    S::Minor(req, 0)
                } else {
                    self.err(Kind::Version, b)
                }
            }
            S::Minor(req, n) => {
                if b.is_ascii_digit() && n < 3 {
                    self.minor = self.minor * 10 + (b - b'0') as u16;
                    S::Minor(req, n + 1)
                } else if n > 0 && b == if req { b'\r' } else { b' ' } {
                    self.t.version(self.major, self.minor);
                    if req {
                        self.t.mark(INITIAL_FINISHED);
                        S::InitialLf
                    } else {
                        self.code = 0;
                        S::Code(0)
                    }
                } else {
                    self.err(Kind::Version, b)
                }
            }
            S::Code(n) => {
                if b.is_ascii_digit() && n < 3 {
                    self.code = self.code * 10 + (b - b'0') as u16;
                    S::Code(n + 1)
                } else if b == b' ' && n == 3 {
                    self.t.status_code(self.code);
                    S::Reason(false)
                } else {
                    self.err(Kind::StatusCode, b)
                }
            }
            S::Reason(_) => {
                if b == b'\r' {
                    self.t.mark(INITIAL_FINISHED);
                    S::InitialLf
                } else if b > 0x1F && b != 0x7F {
                    self.t.data(STATUS, &[b]);
                    S::Reason(true)
                } else {
                    self.err(Kind::Status, b)
                }
            }
            S::InitialLf => {
                if b == b'\n' {
                    self.had_header = false;
                    S::LineStart
                } else {
                    self.err(Kind::CrlfSequence, b)
                }
            }
            S::LineStart => {
                if b == b'\r' {
                    S::Lf2
                } else if ws {
                    if !self.had_header {
                        self.unspecified = true;
                    }
                    S::Value
                } else if visible(b) {
                    if b == b':' {
                        self.unspecified = true;
                    }
                    self.s = S::Name;
                    self.next(b)
                } else {
                    self.err(Kind::HeaderName, b)
                }
            }
            S::Name => {
                if is_token(b) {
                    self.t.data(HEADER_NAME, &[b.to_ascii_lowercase()]);
                    S::Name
                } else if b == b':' {
                    S::ValueStart
                } else {
                    self.err(Kind::HeaderName, b)
                }
            }
            S::ValueStart => {
                self.had_header = true;
                if ws {
                    S::ValueStart
                } else if b == b'\r' {
                    self.t.data(HEADER_VALUE, b"");
                    S::Lf1
                } else if visible(b) || b >= 0x80 {
                    self.s = S::Value;
                    self.next(b)
                } else {
                    self.err(Kind::HeaderValue, b)
                }
            }
            S::Value => {
                if b == b'\r' {
                    S::Lf1
                } else if b == b'"' {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Quoted
                } else if is_field(b) {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Value
                } else {
                    self.err(Kind::HeaderValue, b)
                }
            }
            S::Quoted => {
                if b == b'"' {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Value
                } else if b == b'\\' {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Escaped
                } else if is_quoted(b) {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Quoted
                } else {
                    self.err(Kind::HeaderValue, b)
                }
            }
            S::Escaped => {
                if (0x7B..=0x7E).contains(&b) {
                    // known finding: rejected, although it is allowed
                    self.unspecified = true;
                }
                if (0x20..=0x7A).contains(&b) {
                    self.t.data(HEADER_VALUE, &[b]);
                    S::Quoted
                } else {
                    self.err(Kind::HeaderValue, b)
                }
            }
            S::Lf1 => {
                if b == b'\n' {
                    S::LineStart
                } else {
                    self.err(Kind::CrlfSequence, b)
                }
            }
            S::Lf2 => {
                if b == b'\n' {
                    self.headers_done()
                } else {
                    self.err(Kind::CrlfSequence, b)
                }
            }
            S::Size(n) => {
                if let (Some(d), true) = (hex(b), n < 8) {
                    if n == 0 {
                        self.t.mark(CHUNK_BEGIN);
                        self.len = 0;
                    }
                    self.len = self.len * 16 + d as usize;
                    S::Size(n + 1)
                } else if n > 0 && b == b'\r' {
                    self.t.chunk_length(self.len);
                    if self.len == 0 {
                        self.had_header = false;
                        S::Lf1
                    } else {
                        self.exts_done()
                    }
                } else if n > 0 && b == b';' {
                    self.t.chunk_length(self.len);
                    S::ExtNameStart
                } else {
                    self.err(Kind::ChunkLength, b)
                }
            }
            S::ExtNameStart => {
                if ws {
                    S::ExtNameStart
                } else if visible(b) {
                    if b == b'=' || b == b';' {
                        self.unspecified = true;
                    }
                    self.s = S::ExtName;
                    self.next(b)
                } else {
                    self.err(Kind::ChunkExtensionName, b)
                }
            }
            S::ExtName => match b {
                b'=' => S::ExtValueStart,
                b';' => {
                    self.t.mark(EXT_FINISHED);
                    S::ExtNameStart
                }
                b'\r' => {
                    self.t.mark(EXT_FINISHED);
                    self.exts_done()
                }
                _ if is_token(b) => {
                    self.t.data(EXT_NAME, &[b.to_ascii_lowercase()]);
                    S::ExtName
                }
                _ => self.err(Kind::ChunkExtensionName, b),
            },
            S::ExtValueStart => {
                if ws {
                    S::ExtValueStart
                } else if visible(b) {
                    if b == b';' {
                        self.unspecified = true;
                    }
                    self.s = S::ExtValue;
                    self.next(b)
                } else {
                    self.err(Kind::ChunkExtensionValue, b)
                }
            }
            S::ExtValue => match b {
                b';' => {
                    self.t.mark(EXT_FINISHED);
                    S::ExtNameStart
                }
                b'\r' => {
                    self.t.mark(EXT_FINISHED);
                    self.exts_done()
                }
                b'"' => S::ExtQuoted,
                _ if is_field(b) => {
                    self.t.data(EXT_VALUE, &[b]);
                    S::ExtValue
                }
                _ => self.err(Kind::ChunkExtensionValue, b),
            },
            S::ExtQuoted => match b {
                b'"' => S::ExtValue,
                b'\\' => S::ExtEscaped,
                _ if is_quoted(b) => {
                    self.t.data(EXT_VALUE, &[b]);
                    S::ExtQuoted
                }
                _ => self.err(Kind::ChunkExtensionValue, b),
            },
            S::ExtEscaped => {
                if (0x20..=0x7E).contains(&b) {
                    self.t.data(EXT_VALUE, &[b]);
                    S::ExtQuoted
                } else {
                    self.err(Kind::ChunkExtensionValue, b)
                }
            }
            S::SizeLf => {
                if b != b'\n' {
                    self.err(Kind::CrlfSequence, b)
                } else if self.len == 0 {
                    self.had_header = false;
                    S::LineStart
                } else {
                    S::Data
                }
            }
            S::Data => {
                self.t.data(CHUNK_DATA, &[b]);
                self.len -= 1;
                if self.len == 0 {
                    S::DataCr
                } else {
                    S::Data
                }
            }
            S::DataCr => {
                if b == b'\r' {
                    S::DataLf
                } else {
                    self.err(Kind::CrlfSequence, b)
                }
            }
            S::DataLf => {
                if b == b'\n' {
                    S::Size(0)
                } else {
                    self.err(Kind::CrlfSequence, b)
                }
            }
            S::Delim(n) => {
                if b != self.delim[2 + n] {
                    self.err(Kind::MultipartBoundary, b)
                } else if 2 + n + 1 == self.delim.len() {
                    S::AfterDelim
                } else {
                    S::Delim(n + 1)
                }
            }
            S::AfterDelim => match b {
                b'\r' => {
                    self.part += 1;
                    self.t.mark(PART_BEGIN);
                    S::InitialLf
                }
                b'-' => S::CloseDelim,
                _ => self.err(Kind::MultipartBoundary, b),
            },
            S::CloseDelim => {
                if b == b'-' {
                    self.t.mark(BODY_FINISHED);
                    self.end = End::Finished;
                    S::Done
                } else {
                    self.err(Kind::MultipartBoundary, b)
                }
            }
            S::PartData => {
                if b == self.delim[self.pend] {
                    self.pend += 1;
                    if self.pend == self.delim.len() {
                        self.pend = 0;
                        return S::AfterDelim;
                    }
                } else {
                    let d = self.delim[..self.pend].to_vec();
                    self.t.data(PART_DATA, &d);
                    self.pend = 0;
                    if b == b'\r' {
                        self.pend = 1;
                    } else {
                        self.t.data(PART_DATA, &[b]);
                    }
                }
                S::PartData
            }
            S::PartLen => {
                self.t.data(PART_DATA, &[b]);
                self.len -= 1;
                if self.len == 0 {
                    S::PartLenCr
                } else {
                    S::PartLen
                }
            }
            S::PartLenCr => {
                if b == b'\r' {
                    S::PartLenLf
                } else {
                    self.err(Kind::MultipartBoundary, b)
                }
            }
            S::PartLenLf => {
                if b == b'\n' {
                    S::Delim(0)
                } else {
                    self.err(Kind::MultipartBoundary, b)
                }
            }
            S::PairStart => {
                self.t.mark(URL_BEGIN);
                self.s = S::PairName;
                self.next(b)
            }
            S::PairName => match b {
                b'%' => S::PairNameHex(None),
                b'+' => {
                    self.t.data(URL_NAME, b" ");
                    S::PairName
                }
                b'=' => S::PairValue,
                b'&' | b';' => S::PairStart,
                _ if visible(b) => {
                    self.t.data(URL_NAME, &[b]);
                    S::PairName
                }
                _ => self.err(Kind::UrlEncodedName, b),
            },
            S::PairValue => match b {
                b'%' => S::PairValueHex(None),
                b'+' => {
                    self.t.data(URL_VALUE, b" ");
                    S::PairValue
                }
                b'&' | b';' => S::PairStart,
                _ if visible(b) => {
                    self.t.data(URL_VALUE, &[b]);
                    S::PairValue
                }
                _ => self.err(Kind::UrlEncodedValue, b),
            },
            S::PairNameHex(first) => match (hex(b), first) {
                (None, _) => self.err(Kind::UrlEncodedName, b),
                (h, None) => S::PairNameHex(h),
                (Some(l), Some(h)) => {
                    self.t.data(URL_NAME, &[h * 16 + l]);
                    S::PairName
                }
            },
            S::PairValueHex(first) => match (hex(b), first) {
                (None, _) => self.err(Kind::UrlEncodedValue, b),
                (h, None) => S::PairValueHex(h),
                (Some(l), Some(h)) => {
                    self.t.data(URL_VALUE, &[h * 16 + l]);
                    S::PairValue
                }
            },
        }
    }

    /// The names of the documented parser states in which the next byte may be awaited.
    pub fn states(&self) -> Vec<String> {
        let one = |s: &str| vec![s.to_string()];
        let nth = |s: &str, n: usize| vec![format!("{}{}", s, n + 1)];
        let any = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        match self.s {
            S::Done => vec![],
            S::Lead => one("StripDetect"),
            // a new parser has not looked at anything yet
            S::Detect(0) if self.used == 0 => any(&["StripDetect", "Detect1"]),
            S::Detect(n) => nth("Detect", n),
            S::Method => one("RequestMethod"),
            S::Url(false) => one("RequestUrl1"),
            S::Url(true) => one("RequestUrl2"),
            S::Http(n) => nth("RequestHttp", n),
            S::Major(true, 3) => one("RequestVersionPeriod"),
            S::Major(false, 3) => one("ResponseVersionPeriod"),
            S::Major(true, n) => nth("RequestVersionMajor", n),
            S::Major(false, n) => nth("ResponseVersionMajor", n),
            S::Minor(true, 3) => one("RequestVersionCr"),
            S::Minor(false, 3) => one("ResponseVersionSpace"),
            S::Minor(true, n) => nth("RequestVersionMinor", n),
            S::Minor(false, n) => nth("ResponseVersionMinor", n),
            S::Code(3) => one("ResponseStatusCodeSpace"),
            S::Code(n) => nth("ResponseStatusCode", n),
            S::Reason(false) => one("ResponseStatus1"),
            S::Reason(true) => one("ResponseStatus2"),
            S::InitialLf => any(&["InitialLf", "MultipartBoundaryLf"]),
            S::LineStart => any(&["HeaderCr2", "CheckHeaderName", "FirstHeaderName"]),
            S::Name => any(&["LowerHeaderName", "UpperHeaderName"]),
            S::ValueStart => one("StripHeaderValue"),
            S::Value => one("HeaderValue"),
            S::Quoted => one("HeaderQuotedValue"),
            S::Escaped => one("HeaderEscapedValue"),
            S::Lf1 => one("HeaderLf1"),
            S::Lf2 => one("HeaderLf2"),
            S::Size(8) => one("ChunkLengthCr"),
            S::Size(n) => nth("ChunkLength", n),
            S::ExtNameStart => one("StripChunkExtensionName"),
            S::ExtName => any(&["LowerChunkExtensionName", "UpperChunkExtensionName"]),
            S::ExtValueStart => one("StripChunkExtensionValue"),
            S::ExtValue => one("ChunkExtensionValue"),
            S::ExtQuoted => one("ChunkExtensionQuotedValue"),
            S::ExtEscaped => one("ChunkExtensionEscapedValue"),
            S::SizeLf => one("ChunkLengthLf"),
            S::Data => one("ChunkData"),
            S::DataCr => one("ChunkDataCr"),
            S::DataLf => one("ChunkDataLf"),
            S::Delim(0) => one("MultipartHyphen1"),
            S::Delim(1) => one("MultipartHyphen2"),
            S::Delim(_) => one("MultipartBoundary"),
            // a boundary of no bytes is noticed when its next byte comes
            S::AfterDelim if self.delim.len() == 4 => any(&["MultipartBoundaryCr", "MultipartBoundary"]),
            S::AfterDelim => one("MultipartBoundaryCr"),
            S::CloseDelim => one("MultipartEnd"),
            S::PartData => match self.pend {
                0 => one("MultipartDataByByte"),
                1 => one("MultipartDataByByteLf"),
                2 => one("MultipartHyphen1"),
                3 => one("MultipartHyphen2"),
                _ => one("MultipartBoundary"),
            },
            S::PartLen => one("MultipartDataByLength"),
            // a part of no bytes is noticed when its next byte comes
            S::PartLenCr => any(&["MultipartDataByLengthCr", "MultipartDataByLength"]),
            S::PartLenLf => one("MultipartDataByLengthLf"),
            S::PairStart => one("FirstUrlEncodedName"),
            S::PairName => one("UrlEncodedName"),
            S::PairNameHex(None) => one("UrlEncodedNameHex1"),
            S::PairNameHex(_) => one("UrlEncodedNameHex2"),
            S::PairValue => one("UrlEncodedValue"),
            S::PairValueHex(None) => one("UrlEncodedValueHex1"),
            S::PairValueHex(_) => one("UrlEncodedValueHex2"),
        }
    }
}
