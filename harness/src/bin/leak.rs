//! Runs one operation on each of a list of secrets, and prints for each run what an observer of
//! its instructions and addresses sees: how much, and a digest (leakrt.c).
//!
//! Usage: leak OP FILE         one line per run
//!        leak OP FILE I J     where run J first differs from run I
//! FILE has 451 bytes per run: four 56-byte strings (two scalars, two u-coordinates), two
//! encodings of decaf elements, two encodings of points and a byte of bits.

use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// Blocks of memory for a run come from one place, from its start: where they lie depends on the
/// requests of the run alone, and not on what came before it.
struct Arena;
static mut ROOM: [u128; 1 << 19] = [0; 1 << 19];
static mut USED: usize = 0;
static mut RUNNING: bool = false;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !RUNNING {
            return System.alloc(l);
        }
        let base = std::ptr::addr_of_mut!(ROOM) as *mut u8;
        let at = (USED + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > 16 << 19 {
            return std::ptr::null_mut();
        }
        USED = at + l.size();
        base.add(at)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = std::ptr::addr_of_mut!(ROOM) as *mut u8;
        if p < base || p >= base.add(16 << 19) {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static ARENA: Arena = Arena;

const RECORD: usize = 4 * 56 + 2 * 56 + 2 * 57 + 1;

struct In {
    s: Scalar,
    t: Scalar,
    m: MontgomeryPoint,
    n: MontgomeryPoint,
    d: DecafPoint,
    e: DecafPoint,
    p: ExtendedPoint,
    q: ExtendedPoint,
    db: CompressedDecaf,
    eb: CompressedDecaf,
    c: u8,
}

extern "C" {
    fn leak_tape(tape: *mut u64, room: u64);
    fn leak_on(mode: i32);
    fn leak_off(out: *mut u64);
}

fn a56(b: &[u8]) -> [u8; 56] {
    std::array::from_fn(|i| b[i])
}
fn a57(b: &[u8]) -> [u8; 57] {
    std::array::from_fn(|i| b[i])
}

fn parse(b: &[u8]) -> In {
    // (whether decoding is right is not asked here)
    let point = |b: &[u8]| CompressedEdwardsY(a57(b)).decompress().unwrap_or(ExtendedPoint::generator());
    let element = |b: &CompressedDecaf| b.decompress().unwrap_or(DecafPoint::generator());
    let (mut p, mut q) = (point(&b[336..]), point(&b[393..]));
    let (db, eb) = (CompressedDecaf(a56(&b[224..])), CompressedDecaf(a56(&b[280..])));
    let c = b[450];
    if c & 2 != 0 {
        // other coordinates of the same point
        let g = ExtendedPoint::generator();
        p = p.add(&g).add(&g.negate());
        q = q.double().add(&q.negate());
    }
    In {
        s: Scalar::from_bytes(a56(b)),
        t: Scalar::from_bytes(a56(&b[56..])),
        m: MontgomeryPoint(a56(&b[112..])),
        n: MontgomeryPoint(a56(&b[168..])),
        d: element(&db),
        e: element(&eb),
        p,
        q,
        db,
        eb,
        c: c & 1,
    }
}

macro_rules! ops {
    ($name:expr, $x:ident, { $($op:literal => $e:expr,)* }) => {
        match $name {
            $($op => {
                #[inline(never)]
                fn go($x: &In) { black_box($e); }
                go as fn(&In)
            })*
            _ => std::process::exit(3),
        }
    };
}

#[cfg(ed448_verif)]
fn find(name: &str) -> Option<fn(&In)> {
    use ed448_goldilocks::verif as h;
    if !["t_vb", "t_dbsm"].contains(&name) {
        return None;
    }
    Some(ops!(name, x, {
        "t_vb" => h::variable_base(&black_box(x.p.to_twisted()), &x.s),
        "t_dbsm" => h::double_base_scalar_mul(&x.s, &black_box(x.p.to_twisted()), &x.t),
    }))
}
#[cfg(not(ed448_verif))]
fn find(_: &str) -> Option<fn(&In)> {
    None
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let arg: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&arg[2]).unwrap();
    let name = arg[1].as_str();
    let go: fn(&In) = match find(name) {
        Some(f) => f,
        None => ops!(name, x, {
            "s_add" => x.s + x.t,
            "s_sub" => x.s - x.t,
            "s_mul" => x.s * x.t,
            "s_inv" => x.s.invert(),
            "s_halve" => x.s.halve(),
            "s_wide" => {
                let (a, b) = (x.m.0, x.n.0);
                Scalar::from_bytes_mod_order_wide(&std::array::from_fn(|i| if i < 56 { a[i] } else if i < 112 { b[i - 56] } else { a[i - 100] }))
            },
            "s_eq" => (x.s.ct_eq(&x.t), x.s == x.t),
            "s_bytes" => (x.s.to_bytes(), x.s.bits()),
            "e_mul" => &x.p * &x.s,
            "e_mod4" => x.p.scalar_mod_four(&x.s),
            "e_add" => (x.p + x.q, x.p - x.q, -x.p, x.p.double()),
            "e_eq" => (x.p.ct_eq(&x.q), x.p == x.q),
            "e_tf" => x.p.is_torsion_free(),
            "e_sel" => (ExtendedPoint::conditional_select(&x.p, &x.q, Choice::from(x.c)), {
                let (mut a, mut b) = (x.p, x.q);
                ExtendedPoint::conditional_swap(&mut a, &mut b, Choice::from(x.c));
                a.conditional_assign(&b, Choice::from(x.c));
                (a, b)
            }),
            "e_enc" => x.p.compress().0,
            "e_mont" => x.p.to_montgomery(),
            "t_eq" => x.p.to_twisted() == x.q.to_twisted(),
            "t_sel" => {
                let (a, b) = (x.p.to_twisted(), x.q.to_twisted());
                ConditionallySelectable::conditional_select(&a, &b, Choice::from(x.c))
            },
            "m_mul" => &x.m * &x.s,
            "m_eq" => (x.m.ct_eq(&x.n), x.m == x.n),
            "m_sel" => ConditionallySelectable::conditional_select(&x.m.to_projective(), &x.n.to_projective(), Choice::from(x.c)),
            "d_mul" => &x.d * &x.s,
            "d_add" => (&x.d + &x.e, &x.d - &x.e, -&x.d),
            "d_eq" => x.d.equals(&x.e),
            "d_beq" => (x.db.ct_eq(&x.eb), x.db == x.eb),
            "d_enc" => x.d.compress(),
        }),
    };
    // the runs read their operands from one place, at one depth of the stack
    static mut AT: Option<In> = None;
    let at = unsafe { &mut *std::ptr::addr_of_mut!(AT) };
    let mut once = |record: &[u8], mode: i32| -> [u64; 7] {
        let mut seen = [0; 7];
        *at = Some(parse(record));
        let x = black_box(at.as_ref().unwrap());
        unsafe {
            USED = 0;
            RUNNING = true;
            leak_on(mode);
        }
        let ended = catch_unwind(AssertUnwindSafe(|| go(x)));
        unsafe {
            leak_off(seen.as_mut_ptr());
            RUNNING = false;
        }
        if ended.is_err() {
            seen = [0; 7];
        }
        seen
    };
    let records: Vec<&[u8]> = data.chunks(RECORD).collect();
    let warm = once(records[0], 1);
    if let [_, _, _, i, j] = arg.as_slice() {
        let mut tape = vec![0u64; warm[0] as usize];
        unsafe { leak_tape(tape.as_mut_ptr(), warm[0]) };
        once(records[i.parse::<usize>().unwrap()], 2);
        let seen = once(records[j.parse::<usize>().unwrap()], 3);
        println!("{} {:x} {:x} {:x}", seen[3], seen[4], seen[5], seen[6]);
        return;
    }
    for r in records {
        let seen = once(r, 1);
        println!("{} {:x} {:x}", seen[0], seen[1], seen[2]);
    }
}
