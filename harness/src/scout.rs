//! Runs short programs by the million, and keeps those that look odd.
//!
//! This decides nothing.  A template is a program with holes for operands, and relations that should
//! hold between its results; an instance of which one does not hold, or in which a call panics, is
//! written out, to be executed and judged like any other program.  So is, on request, any instance by its
//! number: two builds that scout with the same seed run the same instances, and a digest of the
//! results of each BLOCK of them tells where they differ.
//!
//! A template file has lines
//!   C kind hex        a value to make operands of
//!   H number          a digit to make operands of
//!   T                 starts a template; then calls, as in a program, with holes, and relations
//! Holes: h?s a scalar, h?p a point's encoding (one of those given), h?d an element's, h?f a coordinate, h?z one that is not 0, h?k one that is not 1 or -1, h?y an encoding of a point, h?c one of a scalar, h?t two bytes,
//! h?b one, h?=K the value of hole K again, h?~K one near to it; pieces may follow one another, literal hexadecimal too.
//! v?N and n?N: a number below N.
//! Relations, by the numbers of the calls: `= i j` the same result; `^ i j` the same first answer; `! i` not none;
//! `? i j` none exactly if the other is; `% i j k` i is none, or j and k the same; `~ i text` this result;
//! `/ i j` i is none exactly if the first answer of j is no.

use crate::{drive, parse, Args, Item, Source};
use std::io::Write;
use std::ops::Range;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const BLOCK: u64 = 64;
/// how many odd instances to write
const ENOUGH: usize = 5;
/// and how many of those before each, in case it is them that matter
const BEFORE: u64 = 24;

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
    fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
}

enum Piece {
    Kind(u8),
    Same(usize),
    Near(usize),
    Literal(Vec<u8>),
}
enum Value {
    None,
    Bytes(Vec<Piece>),
    N(usize),
    V(usize),
}
struct Line {
    text: String,
    args: Args,
    hole: Value,
}
enum Law {
    Same(usize, usize),
    First(usize, usize),
    Some(usize),
    Both(usize, usize),
    If(usize, usize, usize),
    Is(usize, String),
    Unless(usize, usize),
}
#[derive(Default)]
struct Template {
    lines: Vec<Line>,
    laws: Vec<Law>,
}
#[derive(Default)]
struct Book {
    templates: Vec<Template>,
    scalars: Vec<Vec<u8>>,
    coords: Vec<Vec<u8>>,
    points: Vec<Vec<u8>>,
    elements: Vec<Vec<u8>>,
    hints: Vec<u64>,
}

fn pieces(mut s: &str) -> Vec<Piece> {
    let mut out = vec![];
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix('?') {
            let (k, r) = r.split_at(1);
            if k == "=" || k == "~" {
                let (n, r) = r.split_at(1);
                let n = n.parse().unwrap();
                out.push(if k == "=" { Piece::Same(n) } else { Piece::Near(n) });
                s = r;
            } else {
                out.push(Piece::Kind(k.as_bytes()[0]));
                s = r;
            }
        } else {
            out.push(Piece::Literal(crate::unhex(&s[..2])));
            s = &s[2..];
        }
    }
    out
}

fn read(text: &str) -> Book {
    let mut book = Book::default();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        let n = |i: usize| -> usize { w[i].parse().unwrap() };
        match w[0] {
            "C" => match w[1] {
                "s" => &mut book.scalars,
                "p" => &mut book.points,
                "d" => &mut book.elements,
                _ => &mut book.coords,
            }
            .push(crate::unhex(w[2])),
            "H" => book.hints.push(w[1].parse().unwrap()),
            "T" => book.templates.push(Template::default()),
            k => {
                let t = book.templates.last_mut().unwrap();
                match k {
                    "=" => t.laws.push(Law::Same(n(1), n(2))),
                    "^" => t.laws.push(Law::First(n(1), n(2))),
                    "!" => t.laws.push(Law::Some(n(1))),
                    "?" => t.laws.push(Law::Both(n(1), n(2))),
                    "%" => t.laws.push(Law::If(n(1), n(2), n(3))),
                    "~" => t.laws.push(Law::Is(n(1), w[2].into())),
                    "/" => t.laws.push(Law::Unless(n(1), n(2))),
                    _ => {
                        let mut hole = Value::None;
                        let mut plain = vec![];
                        for x in &w {
                            if let (true, Some(r)) = (x.contains('?'), x.strip_prefix('h')) {
                                hole = Value::Bytes(pieces(r));
                            } else if let Some(r) = x.strip_prefix("n?") {
                                hole = Value::N(r.parse().unwrap());
                            } else if let Some(r) = x.strip_prefix("v?") {
                                hole = Value::V(r.parse().unwrap());
                            } else {
                                plain.push(*x);
                            }
                        }
                        let text = plain.join(" ");
                        t.lines.push(Line { args: parse(&text), text, hole });
                    }
                }
            }
        }
    }
    book
}

impl Book {
    /// 56 bytes, some of them such as matter to carries
    fn number(&self, rng: &mut Rng, scalar: bool) -> Vec<u8> {
        let mut b = vec![0u8; 56];
        let consts = if scalar { &self.scalars } else { &self.coords };
        let style = rng.below(10);
        match style {
            0 | 1 => rng.fill(&mut b),
            2 => {
                rng.fill(&mut b);
                b[55] &= 0x3f;
            }
            3 => {
                let k = rng.below(449);
                rng.fill(&mut b);
                for (i, x) in b.iter_mut().enumerate() {
                    let left = k.saturating_sub(8 * i).min(8);
                    *x &= ((1u16 << left) - 1) as u8;
                }
            }
            4 | 5 => {
                // a constant, or next to it, or with other digits here and there
                b.copy_from_slice(&consts[rng.below(consts.len())]);
                match rng.below(4) {
                    0 => (),
                    1 => {
                        let (up, mut by) = (rng.below(2) == 0, rng.below(64) as i32);
                        if !up {
                            by = -by;
                        }
                        for x in b.iter_mut() {
                            by += *x as i32;
                            *x = by as u8;
                            by >>= 8;
                        }
                    }
                    2 => {
                        let bit = rng.below(448);
                        b[bit / 8] ^= 1 << (bit % 8);
                    }
                    _ => {
                        let c = &consts[rng.below(consts.len())];
                        let w = [4, 7, 8, 1][rng.below(4)];
                        let rate = 1 + rng.below(8);
                        for i in (0..56).step_by(w) {
                            if rng.below(9) < rate {
                                b[i..i + w].copy_from_slice(&c[i..i + w]);
                            }
                        }
                        if rng.below(2) == 0 {
                            let i = rng.below(56 / w) * w;
                            rng.fill(&mut b[i..i + w]);
                        }
                    }
                }
            }
            _ => {
                // digits, many of them extreme
                let bits = if scalar { [32, 32, 4, 64][rng.below(4)] } else { [28, 56, 28, 32][rng.below(4)] };
                let often = [2, 5, 8][rng.below(3)];
                let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                for i in 0..448 / bits {
                    let mut v = if rng.below(8) < often {
                        match rng.below(if self.hints.is_empty() { 8 } else { 11 }) {
                            0 | 1 => 0,
                            2 | 3 => max,
                            4 => 1,
                            5 => max - 1,
                            6 => max >> 1,
                            7 => (max >> 1) + 1,
                            _ => self.hints[rng.below(self.hints.len())],
                        }
                    } else {
                        rng.next()
                    } & max;
                    let mut at = i * bits;
                    let mut left = bits;
                    while left > 0 {
                        let take = (8 - at % 8).min(left);
                        b[at / 8] |= ((v & ((1 << take) - 1)) << (at % 8)) as u8;
                        v >>= take;
                        at += take;
                        left -= take;
                    }
                }
            }
        }
        if !self.hints.is_empty() && rng.below(4) == 0 {
            // some of the numbers as positions, others as what is there
            for &i in self.hints.iter() {
                if i < 56 && rng.below(8) < 6 {
                    b[i as usize] = self.hints[rng.below(self.hints.len())] as u8;
                } else if i < 448 && rng.below(2) == 0 {
                    b[i as usize / 8] ^= 1 << (i % 8);
                }
            }
        }
        b
    }

    fn make(&self, kind: u8, rng: &mut Rng) -> Vec<u8> {
        match kind {
            b's' => self.number(rng, true),
            b'f' => self.number(rng, false),
            b'p' => self.points[rng.below(self.points.len())].clone(),
            b'd' => self.elements[rng.below(self.elements.len())].clone(),
            b'z' => {
                let mut b = self.number(rng, false);
                b[55] &= 0x7f;
                if b.iter().all(|x| *x == 0) {
                    b[0] = 1;
                }
                b
            }
            b'k' => {
                // neither 1 nor -1
                let mut b = self.number(rng, false);
                b[1] = 1 + rng.below(254) as u8;
                b
            }
            b'y' => {
                let mut b = self.number(rng, false);
                b.push(match rng.below(16) {
                    0 => rng.next() as u8,
                    1..=7 => 0x80,
                    _ => 0,
                });
                b
            }
            b'c' => {
                let mut b = self.number(rng, true);
                b.push(if rng.below(16) == 0 { rng.next() as u8 } else { 0 });
                b
            }
            b't' => {
                let mut b = vec![0; 2];
                rng.fill(&mut b);
                if rng.below(3) == 0 {
                    b[rng.below(2)] = [0, 255, 1, 128][rng.below(4)];
                }
                b
            }
            _ => vec![rng.next() as u8],
        }
    }

    fn near(&self, of: &[u8], rng: &mut Rng) -> Vec<u8> {
        let mut b = of.to_vec();
        let n = b.len();
        match rng.below(4) {
            0 => b[rng.below(n)] ^= 1 + rng.below(255) as u8,
            1 => {
                let w = [4, 7, 8][rng.below(3)];
                let (i, j) = (rng.below(n / w) * w, rng.below(n / w) * w);
                for k in 0..w {
                    b.swap(i + k, j + k);
                }
            }
            2 => {
                let i = rng.below(n);
                let j = rng.below(n);
                b[i] ^= 1 << rng.below(8);
                b[j] = b[j].wrapping_add(if rng.below(2) == 0 { 1 } else { 255 });
            }
            _ => b[rng.below(n)] ^= 1 << rng.below(8),
        }
        if b == of {
            b[rng.below(n)] ^= 1 << rng.below(8);
        }
        b
    }

    /// The instance of this number, as its template, the calls, and (if wanted) the text
    fn instance(&self, seed: u64, number: u64, calls: &mut Vec<Rc<Args>>, text: Option<&mut String>) -> usize {
        let mut rng = Rng(seed.wrapping_mul(0xd1342543de82ef95) ^ number.wrapping_mul(0x2545f4914f6cdd1d));
        rng.next();
        let which = rng.below(self.templates.len());
        let t = &self.templates[which];
        let mut made: Vec<Vec<u8>> = vec![];
        calls.clear();
        let mut words = String::new();
        for l in &t.lines {
            let mut x = l.args.clone();
            let mut word = String::new();
            match &l.hole {
                Value::None => (),
                Value::N(n) => {
                    x.n = rng.below(*n) as u64;
                    word = format!(" n{}", x.n);
                }
                Value::V(n) => {
                    x.v = rng.below(*n) as u64;
                    word = format!(" v{}", x.v);
                }
                Value::Bytes(ps) => {
                    let mut h = vec![];
                    for p in ps {
                        match p {
                            Piece::Literal(b) => h.extend(b),
                            Piece::Same(k) => h.extend(&made[*k]),
                            Piece::Kind(k) => {
                                made.push(self.make(*k, &mut rng));
                                h.extend(made.last().unwrap());
                            }
                            Piece::Near(k) => {
                                let b = self.near(&made[*k], &mut rng);
                                h.extend(&b);
                                made.push(b);
                            }
                        }
                    }
                    if text.is_some() {
                        word = format!(" h{}", h.iter().map(|b| format!("{:02x}", b)).collect::<String>());
                    }
                    x.h = h;
                }
            }
            if text.is_some() {
                words += &format!("{}{}\n", l.text, word);
            }
            calls.push(Rc::new(x));
        }
        if let Some(o) = text {
            *o += &words;
        }
        which
    }
}

struct Scout<'a> {
    book: &'a Book,
    seed: u64,
    number: u64,
    end: Instant,
    template: usize,
    calls: Vec<Rc<Args>>,
    at: usize,
    results: Vec<String>,
    odd: bool,
    block: u64,
    /// one for each 64 instances, written at once: should the process die, it is known where
    digests: std::fs::File,
    found: usize,
    out: &'a mut dyn Write,
}

fn hash(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9e3779b97f4a7c15);
        h ^= h >> 29;
    }
    h
}

impl<'a> Scout<'a> {
    /// The instance has been run: is it odd?
    fn conclude(&mut self) {
        let t = &self.book.templates[self.template];
        let r = &self.results;
        let none = |i: usize| r[i] == "[]";
        let holds = |l: &Law| match l {
            Law::Same(i, j) => r[*i] == r[*j],
            Law::First(i, j) => r[*i].as_bytes().get(1) == r[*j].as_bytes().get(1),
            Law::Some(i) => !none(*i),
            Law::Both(i, j) => none(*i) == none(*j),
            Law::If(i, j, k) => none(*i) || r[*j] == r[*k],
            Law::Is(i, x) => r[*i] == *x,
            Law::Unless(i, j) => none(*i) == (r[*j].as_bytes()[1] == b'0'),
        };
        if self.odd || !t.laws.iter().all(holds) {
            self.found += 1;
            let (mut text, mut ignore) = (String::new(), vec![]);
            self.book.instance(self.seed, self.number, &mut ignore, Some(&mut text));
            let mut long = String::new();
            for n in self.number.saturating_sub(BEFORE)..=self.number {
                self.book.instance(self.seed, n, &mut ignore, Some(&mut long));
            }
            write!(self.out, "# odd\n{}# before\n{}", text, long).unwrap();
        }
    }
}

impl<'a> Source for Scout<'a> {
    fn next(&mut self) -> Option<Item> {
        if self.at == self.calls.len() {
            if self.at > 0 {
                self.conclude();
                for r in &self.results {
                    self.block = hash(self.block, r.as_bytes());
                }
                self.number += 1;
                if self.number % BLOCK == 0 {
                    self.digests.write_all(&self.block.to_le_bytes()).unwrap();
                    self.block = 0;
                    if Instant::now() > self.end {
                        return None;
                    }
                }
                if self.found >= ENOUGH {
                    return None;
                }
            }
            self.at = 0;
            self.odd = false;
            self.results.clear();
            self.template = self.book.instance(self.seed, self.number, &mut self.calls, None);
        }
        self.at += 1;
        Some(Item::Call(self.calls[self.at - 1].clone()))
    }

    fn done(&mut self, _: &Args, _: &str, result: Option<String>) {
        self.odd |= result.is_none();
        self.results.push(result.unwrap_or("panic".into()));
    }
}

pub fn search(text: &str, out: &mut dyn Write, seed: u64, seconds: u64, digests: &str) {
    let book = read(text);
    let end = Instant::now() + Duration::from_secs(seconds);
    let mut s = Scout { book: &book, seed, number: 0, end, template: 0, calls: vec![], at: 0, results: vec![], odd: false, block: 0, digests: std::fs::File::create(digests).unwrap(), found: 0, out };
    drive(&mut s);
    println!("{}", s.number);
}

pub fn again(text: &str, out: &mut dyn Write, seed: u64, which: Range<u64>) {
    let book = read(text);
    let mut calls = vec![];
    for n in which {
        let mut text = String::new();
        book.instance(seed, n, &mut calls, Some(&mut text));
        write!(out, "# again\n{}", text).unwrap();
    }
}
