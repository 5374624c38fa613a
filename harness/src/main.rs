//! Executes op programs on the real crate and logs, as one event per call, what a caller can see.
//!
//! A program is a text file.  `# name` starts a trace with fresh registers; every other line is
//! an operation with its arguments, each a key letter and a value: `e_add d2 a0 b1 v3`.
//! Keys: d (destination register), a, b, c (source registers), n (number), v (spelling of the
//! operation), h (literal bytes in hexadecimal), l (list of registers), k (calls of one trace with
//! the same k are the same operation on the same values, spelled differently), w (make the call so many
//! times: one event is logged, of the first that gave something else, if one did).
//! One line of JSON per trace comes out.  Integers wider than a machine word are written as their
//! 28-bit digits, least significant first.

use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::ristretto::ristretto::{CompressedRistretto, RistrettoPoint};
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, RngCore};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering::{Relaxed, SeqCst};
use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};
use zeroize::Zeroize;

#[cfg(ed448_verif)]
use ed448_goldilocks::verif;

const NS: usize = 8;
const NE: usize = 8;
const NT: usize = 6;
const NM: usize = 4;
const ND: usize = 8;
const NB: usize = 4;
#[cfg(ed448_verif)]
const NF: usize = 8;

/// Whether results are only compared with one another (scouting), and need not be digits
static RAW: AtomicBool = AtomicBool::new(false);

/// 28-bit digits of a little-endian byte string
fn digits(b: &[u8]) -> String {
    if RAW.load(Relaxed) {
        let mut s = String::with_capacity(2 * b.len());
        for x in b {
            s.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
            s.push(b"0123456789abcdef"[(x & 15) as usize] as char);
        }
        return s;
    }
    let mut s = String::from("[");
    let n = (b.len() * 8 + 27) / 28;
    for i in 0..n {
        // digit i starts in the middle of a byte if i is odd
        let at = i * 28 / 8;
        let mut v: u64 = 0;
        for k in 0..5 {
            v |= (*b.get(at + k).unwrap_or(&0) as u64) << (8 * k);
        }
        v = (v >> (i * 28 % 8)) & 0xfff_ffff;
        if i > 0 {
            s.push(',');
        }
        write!(s, "{}", v).unwrap();
    }
    s.push(']');
    s
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    let mut r = [0u8; N];
    let n = v.len().min(N);
    r[..n].copy_from_slice(&v[..n]);
    r
}
fn bools(v: &[bool]) -> String {
    let v: Vec<&str> = v.iter().map(|b| if *b { "1" } else { "0" }).collect();
    format!("[{}]", v.join(","))
}
fn ch(b: bool) -> Choice {
    Choice::from(b as u8)
}

/// An RNG that hands out given bytes, and then a fixed stream derived from them
struct Feed {
    bytes: Vec<u8>,
    pos: usize,
    state: u64,
}
impl Feed {
    fn byte(&mut self) -> u8 {
        let b = if self.pos < self.bytes.len() {
            self.bytes[self.pos]
        } else {
            self.state ^= self.state << 13;
            self.state ^= self.state >> 7;
            self.state ^= self.state << 17;
            (self.state >> 32) as u8
        };
        self.pos += 1;
        b
    }
}
impl RngCore for Feed {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Feed {}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[cfg(ed448_verif)]
fn coords(c: verif::Coords) -> String {
    format!("[{},{},{},{}]", digits(&c[0]), digits(&c[1]), digits(&c[2]), digits(&c[3]))
}
/// What is logged of a point of Ed448: its coordinates where the hooks are there, or its encoding
fn see_e(p: &ExtendedPoint) -> String {
    #[cfg(ed448_verif)]
    return coords(verif::edwards_coords(p));
    #[cfg(not(ed448_verif))]
    return format!("[{}]", digits(&p.compress().0));
}
fn see_d(p: &DecafPoint) -> String {
    digits(&p.compress().0)
}

#[derive(Default, Clone)]
struct Args {
    op: String,
    d: usize,
    a: usize,
    b: usize,
    c: usize,
    n: u64,
    v: u64,
    w: u64,
    h: Vec<u8>,
    l: Vec<usize>,
    echo: String,
}

fn parse(line: &str) -> Args {
    let mut it = line.split_whitespace();
    let mut x = Args { op: it.next().unwrap().to_string(), ..Default::default() };
    for t in it {
        let (k, val) = t.split_at(1);
        match k {
            "h" => {
                x.h = unhex(val);
                write!(x.echo, ",\"i\":{}", digits(&x.h)).unwrap();
            }
            "l" => {
                x.l = val.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                let q: Vec<String> = x.l.iter().map(|i| (i + 1).to_string()).collect();
                write!(x.echo, ",\"l\":[{}]", q.join(",")).unwrap();
            }
            _ => {
                let n: u64 = val.parse().unwrap();
                // registers count from 1 in the specification
                let shown = if "dabc".contains(k) { n + 1 } else { n };
                write!(x.echo, ",\"{}\":{}", k, shown).unwrap();
                match k {
                    "d" => x.d = n as usize,
                    "a" => x.a = n as usize,
                    "b" => x.b = n as usize,
                    "c" => x.c = n as usize,
                    "n" => x.n = n,
                    "v" => x.v = n,
                    "w" => x.w = n,
                    // only of use to who reads the log
                    "k" => (),
                    _ => panic!("key {}", k),
                }
            }
        }
    }
    x
}

mod scout;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    // log every call before it is made, to find one that does not come back
    let careful = argv.len() > 3 && argv[3] == "careful";
    let program = std::fs::read_to_string(&argv[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&argv[2]).unwrap());
    if !careful { std::panic::set_hook(Box::new(|_| {})); }
    let mode = argv.get(3).map(|x| x.as_str()).unwrap_or("");
    if let Some(n) = mode.strip_prefix("threads=") {
        together(&program, n.parse().unwrap(), &mut out);
    } else if mode == "scout" {
        RAW.store(true, SeqCst);
        let n: Vec<u64> = argv[4].split(',').map(|x| x.parse().unwrap()).collect();
        scout::search(&program, &mut out, n[0], n[1], &argv[5]);
    } else if mode == "again" {
        let n: Vec<u64> = argv[4].split(',').map(|x| x.parse().unwrap()).collect();
        scout::again(&program, &mut out, n[0], n[1]..n[2]);
    } else {
        execute(&program, &mut out, careful, &mut |_| {});
    }
    out.flush().unwrap();
}

/// While a call runs, the runtime of a build that chooses schedules may make the thread wait.
#[cfg(feature = "sched")]
fn sched(on: bool) {
    extern "C" {
        fn sched_on(x: i32);
    }
    unsafe { sched_on(on as i32) }
}
#[cfg(not(feature = "sched"))]
fn sched(_: bool) {}

/// Every n traces that follow one another at the same time, each in its own thread
///
/// With ALIGN set, each thread waits before each call until the others are as far (or have ended, or a
/// moment has passed): they make their calls at the same time, not only their programs.
fn together(program: &str, n: usize, out: &mut dyn Write) {
    let align = std::env::var("ALIGN").is_ok();
    let traces: Vec<String> = program.split("# ").skip(1).map(|x| format!("# {}", x)).collect();
    let logs: Vec<std::sync::Mutex<Vec<u8>>> = traces.iter().map(|_| Default::default()).collect();
    let start = std::sync::Barrier::new(n);
    let progress: Vec<std::sync::atomic::AtomicUsize> = (0..traces.len()).map(|_| Default::default()).collect();
    std::thread::scope(|scope| {
        for k in 0..n {
            let (traces, logs, start, progress) = (&traces, &logs, &start, &progress);
            scope.spawn(move || {
                for g in (0..traces.len()).step_by(n) {
                    start.wait();
                    if g + k < traces.len() {
                        let mut log = vec![];
                        let beside = &progress[g..(g + n).min(traces.len())];
                        execute(&traces[g + k], &mut log, false, &mut |line| {
                            beside[k].store(line, SeqCst);
                            let now = std::time::Instant::now();
                            while align && now.elapsed().as_millis() < 30 && beside.iter().any(|x| x.load(SeqCst) < line) {
                                std::hint::spin_loop();
                            }
                        });
                        beside[k].store(usize::MAX, SeqCst);
                        *logs[g + k].lock().unwrap() = log;
                    }
                }
            });
        }
    });
    for l in logs {
        out.write_all(&l.lock().unwrap()).unwrap();
    }
}

enum Item {
    /// a trace with this name: fresh registers
    Trace(String),
    Call(Rc<Args>),
}

/// Where the calls come from and where what they give goes
trait Source {
    fn next(&mut self) -> Option<Item>;
    /// None: the call panicked
    fn done(&mut self, x: &Args, extra: &str, result: Option<String>);
}

/// The calls of a program, and its log
struct File<'a> {
    lines: std::iter::Enumerate<std::str::Lines<'a>>,
    out: &'a mut dyn Write,
    careful: bool,
    before: &'a mut dyn FnMut(usize),
    open: bool,
    first: bool,
}

impl<'a> Source for File<'a> {
    fn next(&mut self) -> Option<Item> {
        let (number, line) = loop {
            match self.lines.next() {
                None => {
                    if self.open {
                        writeln!(self.out, "]}}").unwrap();
                    }
                    return None;
                }
                Some((_, "")) => (),
                Some(x) => break x,
            }
        };
        if line.starts_with('#') {
            if self.open {
                writeln!(self.out, "]}}").unwrap();
                // so that it is known which trace the process died in
                self.out.flush().unwrap();
            }
            write!(self.out, "{{\"id\":\"{}\",\"ev\":[", line[1..].trim()).unwrap();
            self.open = true;
            self.first = true;
            return Some(Item::Trace(line[1..].trim().into()));
        }
        let x = parse(line);
        if self.careful {
            self.out.flush().unwrap();
            eprintln!("{}", line);
        }
        (self.before)(number + 1);
        Some(Item::Call(Rc::new(x)))
    }

    fn done(&mut self, x: &Args, extra: &str, result: Option<String>) {
        if !self.first {
            self.out.write_all(b",").unwrap();
        }
        self.first = false;
        match result {
            Some(r) => write!(self.out, "{{\"o\":\"{}\",\"p\":0{}{},\"r\":{}}}", x.op, x.echo, extra, r),
            None => write!(self.out, "{{\"o\":\"{}\",\"p\":1{}}}", x.op, x.echo),
        }
        .unwrap();
    }
}

fn execute(program: &str, out: &mut dyn Write, careful: bool, before: &mut dyn FnMut(usize)) {
    drive(&mut File { lines: program.lines().enumerate(), out, careful, before, open: false, first: true })
}

fn drive(source: &mut dyn Source) {
    let mut s = [Scalar::zero(); NS];
    let mut e = [ExtendedPoint::identity(); NE];
    // the type has no public name, but a value of it can be had
    let mut t = [ExtendedPoint::identity().to_twisted(); NT];
    let mut m = [MontgomeryPoint([0; 56]); NM];
    let mut d: Vec<DecafPoint> = (0..ND).map(|_| DecafPoint::identity()).collect();
    let mut by: Vec<Vec<u8>> = vec![vec![]; NB];
    #[cfg(ed448_verif)]
    let mut f = [verif::Fe::zero(); NF];

    while let Some(item) = source.next() {
        let x = match item {
            Item::Call(x) => x,
            Item::Trace(_) => {
                s = [Scalar::zero(); NS];
                e = [ExtendedPoint::identity(); NE];
                t = [ExtendedPoint::identity().to_twisted(); NT];
                m = [MontgomeryPoint([0; 56]); NM];
                d = (0..ND).map(|_| DecafPoint::identity()).collect();
                by = vec![vec![]; NB];
                #[cfg(ed448_verif)]
                {
                    f = [verif::Fe::zero(); NF];
                }
                continue;
            }
        };
        let mut extra = String::new();
        sched(true);
        let mut call = || -> String {
            // bytes: the literal, or the byte register c
            let lit: Vec<u8> = if x.h.is_empty() { by.get(x.c).cloned().unwrap_or_default() } else { x.h.clone() };
            macro_rules! see_t {
                ($p:expr) => {{
                    #[cfg(ed448_verif)]
                    {
                        coords(verif::twisted_coords($p))
                    }
                    #[cfg(not(ed448_verif))]
                    {
                        format!("[{}]", digits(&$p.to_untwisted().compress().0))
                    }
                }};
            }
            macro_rules! put_s {
                ($v:expr) => {{
                    s[x.d] = $v;
                    digits(&s[x.d].to_bytes())
                }};
            }
            macro_rules! put_e {
                ($v:expr) => {{
                    e[x.d] = $v;
                    see_e(&e[x.d])
                }};
            }
            macro_rules! put_t {
                ($v:expr) => {{
                    t[x.d] = $v;
                    see_t!(&t[x.d])
                }};
            }
            macro_rules! put_m {
                ($v:expr) => {{
                    m[x.d] = $v;
                    digits(&m[x.d].0)
                }};
            }
            macro_rules! put_d {
                ($v:expr) => {{
                    d[x.d] = $v;
                    see_d(&d[x.d])
                }};
            }
            macro_rules! take {
                ($i:expr) => {
                    std::mem::replace(&mut d[$i], DecafPoint::identity())
                };
            }
            match x.op.as_str() {
                // ---------------------------------------------------------------- scalars
                "s_lit" => put_s!(Scalar::from_bytes(arr(&lit))),
                "s_can" => match Scalar::from_canonical_bytes(arr(&lit)) {
                    Some(r) => {
                        s[x.d] = r;
                        format!("[{}]", digits(&r.to_bytes()))
                    }
                    None => "[]".into(),
                },
                "s_wide" => put_s!(Scalar::from_bytes_mod_order_wide(&arr(&lit))),
                "s_rand" => {
                    let mut seed = 0x9e3779b97f4a7c15u64;
                    for b in lit.iter() {
                        seed = seed.rotate_left(8) ^ (*b as u64);
                    }
                    let mut rng = Feed { bytes: lit.clone(), pos: 0, state: seed | 1 };
                    let r = Scalar::random(&mut rng);
                    write!(extra, ",\"n\":{}", rng.pos).unwrap();
                    put_s!(r)
                }
                "s_u32" => put_s!(Scalar::from(u32::from_le_bytes(arr(&lit)))),
                "s_const" => put_s!(match x.v {
                    0 => Scalar::zero(),
                    1 => Scalar::one(),
                    _ => Scalar::default(),
                }),
                "s_add" => put_s!(s[x.a] + s[x.b]),
                "s_sub" => put_s!(s[x.a] - s[x.b]),
                "s_mul" => put_s!(s[x.a] * s[x.b]),
                "s_inv" => put_s!(s[x.a].invert()),
                "s_halve" => put_s!(s[x.a].halve()),
                "s_set" => {
                    let mut r = s[x.a];
                    r[x.n as usize] = u32::from_le_bytes(arr(&lit));
                    put_s!(r)
                }
                "s_get" => digits(&s[x.a][x.n as usize].to_le_bytes()),
                "s_bits" => {
                    let bits = s[x.a].bits();
                    let mut b = vec![0u8; (bits.len() + 7) / 8];
                    for (i, bit) in bits.iter().enumerate() {
                        b[i / 8] |= (*bit as u8) << (i % 8);
                    }
                    write!(extra, ",\"n\":{}", bits.len()).unwrap();
                    digits(&b)
                }
                "s_bytes" => {
                    by[x.d] = s[x.a].to_bytes().to_vec();
                    digits(&by[x.d])
                }
                "s_rfc" => {
                    by[x.d] = s[x.a].to_bytes_rfc_8032().to_vec();
                    digits(&by[x.d])
                }
                "s_eq" => {
                    let (a, b) = (&s[x.a], &s[x.b]);
                    bools(&[a == b, a.ct_eq(b).into(), !(a != b)])
                }
                // ---------------------------------------------------------------- byte strings
                "b_lit" => {
                    by[x.d] = x.h.clone();
                    digits(&by[x.d])
                }
                "b_xor" => {
                    // bit n of byte register a
                    let mut b = by[x.a].clone();
                    let n = x.n as usize;
                    if n / 8 >= b.len() {
                        b.resize(n / 8 + 1, 0);
                    }
                    b[n / 8] ^= 1 << (n % 8);
                    by[x.d] = b;
                    digits(&by[x.d])
                }
                // ---------------------------------------------------------------- Ed448
                "e_const" => put_e!(match x.v {
                    0 => ExtendedPoint::identity(),
                    1 => ExtendedPoint::generator(),
                    _ => ExtendedPoint::default(),
                }),
                "e_dec" => match CompressedEdwardsY(arr(&lit)).decompress() {
                    Some(r) => {
                        e[x.d] = r;
                        format!("[{}]", see_e(&r))
                    }
                    None => "[]".into(),
                },
                "e_enc" => {
                    by[x.d] = e[x.a].compress().0.to_vec();
                    digits(&by[x.d])
                }
                "e_add" => put_e!({
                    let (a, b) = (e[x.a], e[x.b]);
                    match x.v {
                        0 => a.add(&b),
                        1 => &a + &b,
                        2 => &a + b,
                        3 => a + &b,
                        4 => a + b,
                        5 => {
                            let mut r = a;
                            r += &b;
                            r
                        }
                        6 => {
                            let mut r = a;
                            r += b;
                            r
                        }
                        _ => [a, b].iter().sum(),
                    }
                }),
                "e_sub" => put_e!({
                    let (a, b) = (e[x.a], e[x.b]);
                    match x.v {
                        0 => &a - &b,
                        1 => &a - b,
                        2 => a - &b,
                        3 => a - b,
                        4 => {
                            let mut r = a;
                            r -= &b;
                            r
                        }
                        _ => {
                            let mut r = a;
                            r -= b;
                            r
                        }
                    }
                }),
                "e_neg" => put_e!({
                    let a = e[x.a];
                    match x.v {
                        0 => a.negate(),
                        1 => -&a,
                        _ => -a,
                    }
                }),
                "e_dbl" => put_e!(e[x.a].double()),
                "e_torque" => put_e!(e[x.a].torque()),
                "e_mul" => put_e!({
                    let (a, k) = (e[x.a], s[x.b]);
                    match x.v {
                        0 => a.scalar_mul(&k),
                        1 => &a * &k,
                        2 => &a * k,
                        3 => a * &k,
                        4 => a * k,
                        5 => &k * &a,
                        6 => &k * a,
                        7 => k * &a,
                        8 => k * a,
                        9 => {
                            let mut r = a;
                            r *= &k;
                            r
                        }
                        _ => {
                            let mut r = a;
                            r *= k;
                            r
                        }
                    }
                }),
                "e_mod4" => put_e!(e[x.a].scalar_mod_four(&s[x.b])),
                "e_sum" => put_e!({
                    let q: Vec<ExtendedPoint> = x.l.iter().map(|i| e[*i]).collect();
                    match x.v {
                        0 => q.iter().sum(),
                        1 => q.into_iter().sum(),
                        // iterators that do not tell how long they are
                        2 => q.iter().filter(|_| true).sum(),
                        _ => {
                            let mut i = 0;
                            std::iter::from_fn(|| {
                                i += 1;
                                q.get(i - 1).copied()
                            })
                            .sum()
                        }
                    }
                }),
                "e_aff" => put_e!(e[x.a].to_affine().to_extended()),
                "e_sel" => put_e!({
                    let (a, b) = (e[x.a], e[x.b]);
                    match x.v {
                        0 => ExtendedPoint::conditional_select(&a, &b, ch(x.n == 1)),
                        1 => {
                            let mut r = a;
                            r.conditional_assign(&b, ch(x.n == 1));
                            r
                        }
                        _ => {
                            let (mut p, mut q) = (a, b);
                            ExtendedPoint::conditional_swap(&mut p, &mut q, ch(x.n == 1));
                            p
                        }
                    }
                }),
                // the second of a pair after a conditional swap
                "e_swap" => put_e!({
                    let (mut p, mut q) = (e[x.a], e[x.b]);
                    ExtendedPoint::conditional_swap(&mut p, &mut q, ch(x.n == 1));
                    q
                }),
                "e_eq" => {
                    let (a, b) = (&e[x.a], &e[x.b]);
                    bools(&[a == b, a.ct_eq(b).into(), !(a != b)])
                }
                "e_tf" => bools(&[e[x.a].is_torsion_free()]),
                "e_mont" => put_m!(e[x.a].to_montgomery()),
                // ---------------------------------------------------------------- twisted curve
                "t_const" => put_t!(match x.v {
                    0 => Default::default(),
                    _ => {
                        // the cached identity
                        let mut r = t[0].to_extensible().to_projective_niels();
                        r.clone_from(&Default::default());
                        r.to_extended()
                    }
                }),
                "t_iso" => put_t!(e[x.a].to_twisted()),
                "t_un" => put_e!(t[x.a].to_untwisted()),
                "t_neg" => put_t!(t[x.a].negate()),
                "t_torque" => put_t!(t[x.a].torque()),
                "t_dbl" => put_t!(t[x.a].to_extensible().double().to_extended()),
                "t_add" => put_t!({
                    let a = t[x.a].to_extensible();
                    match x.v {
                        0 => a.add_extended(&t[x.b]).to_extended(),
                        1 => a.add_extensible(&t[x.b].to_extensible()).to_extended(),
                        _ => a
                            .add_projective_niels(&t[x.b].to_extensible().to_projective_niels())
                            .to_extended(),
                    }
                }),
                "t_sub" => put_t!({
                    let a = t[x.a].to_extensible();
                    match x.v {
                        0 => a.sub_extended(&t[x.b]).to_extended(),
                        _ => {
                            let mut q = t[x.b].to_extensible().to_projective_niels();
                            q.conditional_negate(ch(true));
                            a.add_projective_niels(&q).to_extended()
                        }
                    }
                }),
                // (a + b) doubled n times and added to c without leaving extensible coordinates
                "t_chain" => put_t!({
                    let mut r = t[x.a].to_extensible().add_extended(&t[x.b]);
                    for _ in 0..x.n {
                        r = r.double();
                    }
                    match x.v {
                        0 => r.add_extended(&t[x.c]).to_extended(),
                        1 => r.sub_extended(&t[x.c]).to_extended(),
                        2 => r
                            .add_projective_niels(&t[x.c].to_extensible().to_projective_niels())
                            .to_extended(),
                        // the other operand is a result too
                        3 => r.add_extensible(&t[x.c].to_extensible().double()).to_extended(),
                        4 => r
                            .add_projective_niels(&t[x.c].to_extensible().double().to_projective_niels())
                            .to_extended(),
                        _ => {
                            let mut q = t[x.c].to_extensible().double().to_projective_niels();
                            q.conditional_negate(ch(true));
                            r.add_projective_niels(&q).to_extended()
                        }
                    }
                }),
                "t_niels" => put_t!({
                    let mut q = t[x.a].to_extensible().to_projective_niels();
                    q.conditional_negate(ch(x.n == 1));
                    q.to_extended()
                }),
                "t_sel" => put_t!({
                    let (a, b) = (t[x.a], t[x.b]);
                    match x.v {
                        0 => ConditionallySelectable::conditional_select(&a, &b, ch(x.n == 1)),
                        1 => {
                            let mut r = a;
                            r.conditional_assign(&b, ch(x.n == 1));
                            r
                        }
                        2 => {
                            let (mut p, mut q) = (a, b);
                            ConditionallySelectable::conditional_swap(&mut p, &mut q, ch(x.n == 1));
                            p
                        }
                        // cached points
                        3 => {
                            let (p, q) = (a.to_extensible().to_projective_niels(), b.to_extensible().to_projective_niels());
                            let mut r = p;
                            r.conditional_assign(&q, ch(x.n == 1));
                            r.to_extended()
                        }
                        _ => {
                            let (p, q) = (a.to_extensible().to_projective_niels(), b.to_extensible().to_projective_niels());
                            ConditionallySelectable::conditional_select(&p, &q, ch(x.n == 1)).to_extended()
                        }
                    }
                }),
                "t_eq" => {
                    let (a, b) = (&t[x.a], &t[x.b]);
                    let (p, q) = (a.to_extensible(), b.to_extensible());
                    let (i, j) = (p.to_projective_niels(), q.to_projective_niels());
                    let id = ExtendedPoint::identity().to_twisted();
                    let (p1, q1) = (p.add_extended(&id), q.sub_extended(&id));
                    bools(&[
                        a == b,
                        a.ct_eq(b).into(),
                        !(a != b),
                        p == q,
                        p.ct_eq(&q).into(),
                        i == j,
                        // the same points, computed
                        p1 == q,
                        p.ct_eq(&q1).into(),
                        p1.to_projective_niels() == j,
                    ])
                }
                // ---------------------------------------------------------------- Montgomery
                "m_lit" => put_m!(MontgomeryPoint(arr(&lit))),
                "m_gen" => put_m!(MontgomeryPoint::generator()),
                "m_mul" => put_m!({
                    let (a, k) = (m[x.a], s[x.b]);
                    match x.v {
                        0 => &a * &k,
                        _ => &k * &a,
                    }
                }),
                "m_low" => bools(&[m[x.a].is_low_order()]),
                "m_proj" => put_m!(m[x.a].to_projective().to_affine()),
                // of projective points
                "m_sel" => put_m!({
                    let (a, b) = (m[x.a].to_projective(), m[x.b].to_projective());
                    match x.v {
                        0 => ConditionallySelectable::conditional_select(&a, &b, ch(x.n == 1)).to_affine(),
                        1 => {
                            let mut r = a;
                            r.conditional_assign(&b, ch(x.n == 1));
                            r.to_affine()
                        }
                        _ => {
                            let (mut p, mut q) = (a, b);
                            ConditionallySelectable::conditional_swap(&mut p, &mut q, ch(x.n == 1));
                            p.to_affine()
                        }
                    }
                }),
                "m_bytes" => {
                    by[x.d] = m[x.a].as_bytes().to_vec();
                    digits(&by[x.d])
                }
                "m_eq" => {
                    let (a, b) = (&m[x.a], &m[x.b]);
                    bools(&[a == b, a.ct_eq(b).into(), !(a != b), hash_of(a) == hash_of(b)])
                }
                "m_wipe" => put_m!({
                    let mut r = m[x.a];
                    r.zeroize();
                    r
                }),
                // ---------------------------------------------------------------- decaf
                "d_const" => put_d!(match x.v {
                    0 => DecafPoint::identity(),
                    1 => DecafPoint::generator(),
                    _ => CompressedDecaf::identity().decompress().unwrap(),
                }),
                "d_dec" => match CompressedDecaf(arr(&lit)).decompress() {
                    Some(r) => {
                        d[x.d] = r;
                        format!("[{}]", see_d(&d[x.d]))
                    }
                    None => "[]".into(),
                },
                "d_enc" => {
                    let c = d[x.a].compress();
                    by[x.d] = c.as_bytes().to_vec();
                    digits(&by[x.d])
                }
                "d_add" => put_d!({
                    match x.v {
                        0 => &d[x.a] + &d[x.b],
                        _ => {
                            let (a, b) = (take!(x.a), take!(x.b));
                            a + b
                        }
                    }
                }),
                "d_sub" => put_d!({
                    match x.v {
                        0 => &d[x.a] - &d[x.b],
                        1 => d[x.a].sub(&d[x.b]),
                        _ => {
                            let (a, b) = (take!(x.a), take!(x.b));
                            a - b
                        }
                    }
                }),
                "d_neg" => put_d!({
                    match x.v {
                        0 => -&d[x.a],
                        _ => -take!(x.a),
                    }
                }),
                "d_mul" => put_d!({
                    let k = s[x.b];
                    match x.v {
                        0 => &d[x.a] * &k,
                        1 => &k * &d[x.a],
                        2 => take!(x.a) * k,
                        _ => k * take!(x.a),
                    }
                }),
                "d_eq" => bools(&[d[x.a].equals(&d[x.b])]),
                "d_ceq" => {
                    let (a, b) = (d[x.a].compress(), d[x.b].compress());
                    bools(&[a == b, a.ct_eq(&b).into(), !(a != b)])
                }
                // encodings as such, whether they decode or not
                "d_beq" => {
                    let (a, b) = (CompressedDecaf(arr(&by[x.a])), CompressedDecaf(arr(&by[x.b])));
                    bools(&[a == b, a.ct_eq(&b).into(), !(a != b)])
                }
                // every way to print what the registers hold
                "x_fmt" => {
                    let mut q = String::new();
                    write!(q, "{:?} {:?} {:?}", s[x.a], e[x.a], m[x.b]).unwrap();
                    write!(q, "{:?} {:?}", d[x.a], d[x.a].compress()).unwrap();
                    write!(q, "{:?}", e[x.a].compress().0.to_vec()).unwrap();
                    write!(q, "{:?}", t[x.c]).unwrap();
                    bools(&[q.len() > 100])
                }
                // ---------------------------------------------------------------- Ristretto
                "r_id" => {
                    let (a, b) = (RistrettoPoint::identity(), RistrettoPoint::identity());
                    let (p, q) = (CompressedRistretto::identity(), CompressedRistretto::identity());
                    bools(&[
                        a.equals(&b),
                        p == q,
                        p.ct_eq(&q).into(),
                        p.as_bytes().len() == 56 && p.as_bytes().iter().all(|b| *b == 0),
                    ])
                }
                op => hooked(op, &x, &s, &mut e, &mut d, &lit, {
                    #[cfg(ed448_verif)]
                    {
                        (&mut t, &mut f)
                    }
                    #[cfg(not(ed448_verif))]
                    {
                        &()
                    }
                }),
            }
        };
        let res = catch_unwind(AssertUnwindSafe(|| {
            let first = call();
            for _ in 1..if cfg!(debug_assertions) { x.w / 16 } else { x.w } {
                let again = call();
                if again != first {
                    return again;
                }
            }
            first
        }));
        sched(false);
        source.done(&x, &extra, res.ok());
    }
}

#[cfg(not(ed448_verif))]
fn hooked(
    op: &str,
    _x: &Args,
    _s: &[Scalar; NS],
    _e: &mut [ExtendedPoint; NE],
    _d: &mut Vec<DecafPoint>,
    _lit: &[u8],
    _more: &(),
) -> String {
    eprintln!("unknown operation {}", op);
    std::process::exit(3)
}

#[cfg(ed448_verif)]
fn hooked(
    op: &str,
    x: &Args,
    s: &[Scalar; NS],
    e: &mut [ExtendedPoint; NE],
    d: &mut Vec<DecafPoint>,
    lit: &[u8],
    (t, f): (&mut [verif::Twisted; NT], &mut [verif::Fe; NF]),
) -> String {
    use verif::Fe;
    macro_rules! put_f {
        ($v:expr) => {{
            f[x.d] = $v;
            digits(&f[x.d].to_bytes())
        }};
    }
    macro_rules! put_t {
        ($v:expr) => {{
            t[x.d] = $v;
            coords(verif::twisted_coords(&t[x.d]))
        }};
    }
    match op {
        "f_lit" => put_f!(Fe::from_bytes(&arr(lit))),
        "f_const" => put_f!(if x.v == 0 { Fe::zero() } else { Fe::one() }),
        "f_add" => put_f!(f[x.a].add(&f[x.b])),
        "f_sub" => put_f!(f[x.a].sub(&f[x.b])),
        "f_mul" => put_f!(f[x.a].mul(&f[x.b])),
        "f_sqr" => put_f!(f[x.a].square()),
        "f_neg" => put_f!(f[x.a].negate()),
        "f_inv" => put_f!(f[x.a].invert()),
        "f_red" => put_f!(f[x.a].strong_reduce()),
        "f_isr" => {
            let (r, ok) = f[x.a].inverse_square_root();
            f[x.d] = r;
            format!("[{},[{}]]", digits(&r.to_bytes()), ok as u8)
        }
        "f_sqrtr" => {
            let (r, ok) = Fe::sqrt_ratio(&f[x.a], &f[x.b]);
            f[x.d] = r;
            format!("[{},[{}]]", digits(&r.to_bytes()), ok as u8)
        }
        "f_test" => bools(&[f[x.a].is_negative(), f[x.a].is_zero()]),
        "f_eq" => bools(&[f[x.a].equals(&f[x.b])]),
        "f_cneg" => put_f!(f[x.a].conditional_negate(x.n == 1)),
        "f_sel" => put_f!(Fe::conditional_select(&f[x.a], &f[x.b], x.n == 1)),
        "e_scale" => {
            e[x.d] = verif::edwards_rescale(&e[x.a], &Fe::from_bytes(&arr(lit)));
            see_e(&e[x.d])
        }
        "t_scale" => put_t!(verif::twisted_rescale(&t[x.a], &Fe::from_bytes(&arr(lit)))),
        "d_scale" => {
            d[x.d] = verif::decaf_rescale(&d[x.a], &Fe::from_bytes(&arr(lit)));
            see_d(&d[x.d])
        }
        // the coordinates of the representative of a decaf element
        "d_rep" => coords(verif::decaf_coords(&d[x.a])),
        #[cfg(ed448_verif_affine)]
        "t_aff" => {
            use ed448_goldilocks::verif_affine as af;
            let (p, q) = (&t[x.a], &t[x.b]);
            put_t!(match x.v {
                0 => af::through(p),
                1 => af::negate(p),
                2 => af::add(p, q),
                3 => af::add_niels(p, q),
                4 => af::through_niels(p),
                5 => af::select(p, q, x.n == 1),
                6 | 7 => af::identity(x.v == 7),
                _ => af::add_niels_twice(p, q),
            })
        }
        #[cfg(ed448_verif_affine)]
        "t_aneq" => bools(&ed448_goldilocks::verif_affine::equal(&t[x.a], &t[x.b])),
        #[cfg(ed448_verif_affine)]
        "t_on" => {
            let c = [0, 1, 2, 3].map(|i| arr(&lit[56 * i..56 * i + 56]));
            bools(&ed448_goldilocks::verif_affine::on_curve(&c))
        }
        "t_vb" => put_t!(verif::variable_base(&t[x.a], &s[x.b])),
        "t_daa" => put_t!(verif::double_and_add(&t[x.a], &s[x.b])),
        "t_dbsm" => put_t!(verif::double_base_scalar_mul(&s[x.b], &t[x.a], &s[x.c])),
        "s_radix" => {
            let r = verif::radix_16(&s[x.a]);
            let q: Vec<String> = r.iter().map(|v| v.to_string()).collect();
            format!("[{}]", q.join(","))
        }
        _ => {
            eprintln!("unknown operation {}", op);
            std::process::exit(3)
        }
    }
}
