// Collects the string and number literals of the library's source. The generators mix them into their
// inputs (a fuzzing dictionary): what the code compares with something is then generated more often.
// Nothing is judged by them.

use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            if !matches!(p.file_name().and_then(|n| n.to_str()), Some("test") | Some("tests")) {
                sources(&p, out);
            }
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

/// The literals of one file.
fn literals(s: &[u8], texts: &mut BTreeSet<Vec<u8>>, numbers: &mut BTreeSet<u64>) {
    // numbers and bytes one after another: expressions and lists
    let mut chain: Vec<u64> = vec![];
    let mut ops: Vec<u8> = vec![];
    let mut expect = true;
    let at = |i: usize| -> u8 { s.get(i).cloned().unwrap_or(0) };
    let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(b"//") {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with(b"/*") {
            i += 2;
            while i < s.len() && !s[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if s[i] == b'"' {
            i += 1;
            let mut t = vec![];
            while i < s.len() && s[i] != b'"' {
                if s[i] == b'\\' {
                    i += 1;
                    match at(i) {
                        b'n' => t.push(b'\n'),
                        b'r' => t.push(b'\r'),
                        b't' => t.push(b'\t'),
                        b'0' => t.push(0),
                        b'x' => {
                            let h = |b: u8| (b as char).to_digit(16).unwrap_or(0) as u8;
                            t.push(h(at(i + 1)) << 4 | h(at(i + 2)));
                            i += 2;
                        }
                        b => t.push(b),
                    }
                    i += 1;
                } else {
                    t.push(s[i]);
                    i += 1;
                }
            }
            i += 1;
            texts.insert(t);
        } else if s[i] == b'\'' {
            // a character, or a lifetime
            if i > 0 && s[i - 1] == b'b' && (at(i + 1) != b'\\' && at(i + 2) == b'\'') {
                push(&mut chain, &mut ops, &mut expect, at(i + 1) as u64, texts, numbers);
            }
            if at(i + 1) == b'\\' {
                i += 3;
                while i < s.len() && s[i] != b'\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == b'\'' {
                i += 3;
            } else {
                i += 1;
            }
        } else if s[i].is_ascii_digit() && (i == 0 || !word(s[i - 1])) {
            let start = i;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            let t: String = s[start..i].iter().map(|&b| b as char).filter(|&c| c != '_').collect();
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, t[2..].to_string()),
                Some("0b") => (2, t[2..].to_string()),
                Some("0o") => (8, t[2..].to_string()),
                _ => (10, t),
            };
            // without a type at the end
            let end = t.find(|c: char| !c.is_digit(radix)).unwrap_or(t.len());
            if let Ok(n) = u64::from_str_radix(&t[..end], radix) {
                numbers.insert(n);
                push(&mut chain, &mut ops, &mut expect, n, texts, numbers);
            }
        } else {
            let op = match s[i] {
                b @ (b'*' | b'+' | b'-' | b',' | b'|' | b'^' | b'/') => b,
                b'<' if at(i + 1) == b'<' => {
                    i += 1;
                    b'<'
                }
                _ => 0,
            };
            if op != 0 && !expect {
                ops.push(op);
                expect = true;
            } else if !s[i].is_ascii_whitespace() && !(s[i] == b'b' && at(i + 1) == b'\'') {
                flush(&mut chain, &mut ops, &mut expect, texts, numbers);
            }
            i += 1;
        }
    }
    flush(&mut chain, &mut ops, &mut expect, texts, numbers);
}

fn push(chain: &mut Vec<u64>, ops: &mut Vec<u8>, expect: &mut bool, n: u64, texts: &mut BTreeSet<Vec<u8>>, numbers: &mut BTreeSet<u64>) {
    if !*expect {
        flush(chain, ops, expect, texts, numbers);
    }
    chain.push(n);
    *expect = false;
}

/// The value of a constant expression, or the text of a list of bytes.
fn flush(chain: &mut Vec<u64>, ops: &mut Vec<u8>, expect: &mut bool, texts: &mut BTreeSet<Vec<u8>>, numbers: &mut BTreeSet<u64>) {
    ops.truncate(chain.len().saturating_sub(1));
    if chain.len() > 1 {
        if ops.iter().all(|&o| o == b',') {
            if chain.iter().all(|&n| n < 256) {
                texts.insert(chain.iter().map(|&n| n as u8).collect());
            }
        } else {
            let (mut v, mut o) = (chain.clone(), ops.clone());
            for level in [&b"*/"[..], b"+-", b"<", b"^", b"|"] {
                let mut k = 0;
                while k < o.len() {
                    if level.contains(&o[k]) {
                        let (a, b) = (v[k], v.remove(k + 1));
                        v[k] = match o.remove(k) {
                            b'*' => a.wrapping_mul(b),
                            b'/' => a.checked_div(b).unwrap_or(0),
                            b'+' => a.wrapping_add(b),
                            b'-' => a.wrapping_sub(b),
                            b'<' => a.wrapping_shl(b as u32),
                            b'^' => a ^ b,
                            _ => a | b,
                        };
                    } else {
                        k += 1;
                    }
                }
            }
            numbers.extend(v);
        }
    }
    chain.clear();
    ops.clear();
    *expect = true;
}

fn main() {
    let manifest = fs::read_to_string("Cargo.toml").unwrap_or_default();
    let repo = manifest
        .lines()
        .find(|l| l.starts_with("http-box"))
        .and_then(|l| l.split('"').nth(1))
        .unwrap_or("/repo")
        .to_string();
    let src = Path::new(&repo).join("src");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    println!("cargo:rerun-if-changed={}", src.display());
    let (mut texts, mut numbers) = (BTreeSet::new(), BTreeSet::new());
    let mut files = vec![];
    sources(&src, &mut files);
    for f in files {
        println!("cargo:rerun-if-changed={}", f.display());
        literals(&fs::read(f).unwrap_or_default(), &mut texts, &mut numbers);
    }
    let mut o = String::new();
    for t in texts.iter().filter(|t| !t.is_empty() && t.len() <= 200) {
        o.push_str("dict-text ");
        for b in t {
            o.push_str(&format!("{:02x}", b));
        }
        o.push('\n');
    }
    for n in numbers {
        o.push_str(&format!("dict-number {}\n", n));
    }
    let out = std::env::var("OUT_DIR").expect("OUT_DIR");
    fs::write(Path::new(&out).join("dict.txt"), o).expect("dict.txt");
}
