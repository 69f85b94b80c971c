//! R03: stored objects.
use crate::common::*;
use parasol_runtime::{fluent::*, safe_bincode::GetSize, *};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::result::Result;
use sunscreen_tfhe::{entities::*, OverlaySize};
use vkit::proptest::prelude::*;
use vkit::*;

/// Counts what the current thread has allocated, live and at most.
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn note(n: isize) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// One part of a stored object: a fixed-width word that must have a given value (or lie in a range),
/// or a sequence of `n` elements of `width` bytes behind its 64-bit length.
#[derive(Clone, Debug)]
enum Part {
    Word32(std::ops::RangeInclusive<u32>),
    Len(u64),
    Seq(usize, usize),
}

struct Kind {
    name: &'static str,
    parts: fn(&Params) -> Vec<Part>,
    make: fn(&Ctx, u64) -> Vec<u8>,
    size: fn(&Params) -> usize,
    /// Reads and stores again.
    read: fn(&[u8], &Params) -> Result<Vec<u8>, String>,
    rlwe: bool,
    keys: bool,
}

fn rd<T: GetSize + DeserializeOwned + Serialize>(b: &[u8], p: &Params) -> Result<Vec<u8>, String> {
    let x: T = safe_bincode::deserialize(b, p).map_err(|e| e.to_string())?;
    Ok(bincode::serialize(&x).unwrap())
}
fn ser<T: Serialize>(x: T) -> Vec<u8> {
    bincode::serialize(&x).unwrap()
}
fn l0(p: &Params) -> usize {
    LweCiphertextRef::<u64>::size(p.l0_params.dim)
}
fn l1(p: &Params) -> usize {
    LweCiphertextRef::<u64>::size(p.l1_params.as_lwe_def().dim)
}
fn glwe(p: &Params) -> usize {
    (p.l1_params.dim.size.0 + 1) * p.l1_params.dim.polynomial_degree.0
}
fn glev(p: &Params) -> usize {
    glwe(p) * p.cbs_radix.count.0
}
/// words of the keys, from their definitions
fn bsk(p: &Params) -> usize {
    p.l0_params.dim.0 * (p.l1_params.dim.size.0 + 1) * p.pbs_radix.count.0 * glwe(p)
}
fn ksk(p: &Params) -> usize {
    p.l1_params.dim.size.0 * p.l1_params.dim.polynomial_degree.0 * p.ks_radix.count.0 * l0(p)
}
fn ssk(p: &Params) -> usize {
    let k = p.l1_params.dim.size.0;
    k * (k + 1) / 2 * p.ss_radix.count.0 * glwe(p)
}
fn atk(p: &Params) -> usize {
    let k = p.l1_params.dim.size.0;
    p.l1_params.dim.polynomial_degree.0.ilog2() as usize * k * p.tr_radix.count.0 * glwe(p)
}
fn poly(c: &Ctx, s: u64, bits: usize) -> Polynomial<u64> {
    let n = c.params.l1_poly_degree().0;
    let v: Vec<u64> = (0..n).map(|i| if i < bits { s.rotate_left(i as u32 * 7) >> 3 & 1 } else { 0 }).collect();
    Polynomial::new(&v)
}
fn seqs(n: usize, one: usize) -> Vec<Part> {
    std::iter::once(Part::Len(n as u64)).chain((0..n).map(|_| Part::Seq(one, 8))).collect()
}

macro_rules! gi {
    ($name:literal, $n:literal, $t:ty, $u:ty, $len:ident) => {
        Kind {
            name: $name,
            parts: |p| seqs($n, $len(p)),
            make: |c, s| ser(GenericInt::<$n, $t, $u>::from(DynamicGenericInt::<$t, $u>::from_bits_deep((0..$n).map(|i| <$t as CiphertextOps>::encrypt_secret(s >> i & 1 == 1, &c.enc, &c.sk)).collect()))),
            size: GenericInt::<$n, $t, $u>::get_size,
            read: rd::<GenericInt<$n, $t, $u>>,
            rlwe: false,
            keys: false,
        }
    };
}
macro_rules! bit {
    ($name:literal, $t:ty, $len:ident) => {
        Kind {
            name: $name,
            parts: |p| vec![Part::Seq($len(p), 8)],
            make: |c, s| ser(Bit::<$t>::encrypt_secret(s & 1 == 1, &c.enc, &c.sk)),
            size: Bit::<$t>::get_size,
            read: rd::<Bit<$t>>,
            rlwe: false,
            keys: false,
        }
    };
}
macro_rules! ct {
    ($name:literal, $t:ty, $len:ident) => {
        Kind {
            name: $name,
            parts: |p| vec![Part::Seq($len(p), 8)],
            make: |c, s| ser(<$t as CiphertextOps>::encrypt_secret(s & 1 == 1, &c.enc, &c.sk)),
            size: <$t>::get_size,
            read: rd::<$t>,
            rlwe: false,
            keys: false,
        }
    };
}
macro_rules! packed {
    ($name:literal, $n:literal, $u:ty) => {
        Kind {
            name: $name,
            parts: |p| vec![Part::Word32($n..=$n), Part::Seq(glwe(p), 8)],
            make: |c, s| ser(PackedGenericInt::<$n, L1GlweCiphertext, $u>::from(PackedDynamicGenericInt::<L1GlweCiphertext, $u>::from(($n, c.enc.encrypt_glwe_l1_secret(&poly(c, s, $n), &c.sk))))),
            size: PackedGenericInt::<$n, L1GlweCiphertext, $u>::get_size,
            read: rd::<PackedGenericInt<$n, L1GlweCiphertext, $u>>,
            rlwe: false,
            keys: false,
        }
    };
}

fn kinds() -> Vec<Kind> {
    vec![
        ct!("l0-lwe", L0LweCiphertext, l0),
        ct!("l1-lwe", L1LweCiphertext, l1),
        ct!("l1-glwe", L1GlweCiphertext, glwe),
        ct!("l1-glev", L1GlevCiphertext, glev),
        bit!("bit-l0", L0LweCiphertext, l0),
        bit!("bit-l1", L1LweCiphertext, l1),
        bit!("bit-glwe", L1GlweCiphertext, glwe),
        bit!("bit-glev", L1GlevCiphertext, glev),
        gi!("int-1-l0-unsigned", 1, L0LweCiphertext, Unsigned, l0),
        gi!("int-7-l0-signed", 7, L0LweCiphertext, Signed, l0),
        gi!("int-16-l0-unsigned", 16, L0LweCiphertext, Unsigned, l0),
        gi!("int-3-l1-signed", 3, L1LweCiphertext, Signed, l1),
        gi!("int-8-l1-unsigned", 8, L1LweCiphertext, Unsigned, l1),
        gi!("int-4-glwe-unsigned", 4, L1GlweCiphertext, Unsigned, glwe),
        gi!("int-8-glwe-signed", 8, L1GlweCiphertext, Signed, glwe),
        gi!("int-2-glev-signed", 2, L1GlevCiphertext, Signed, glev),
        gi!("int-5-glev-unsigned", 5, L1GlevCiphertext, Unsigned, glev),
        packed!("packed-1-unsigned", 1, Unsigned),
        packed!("packed-8-signed", 8, Signed),
        packed!("packed-64-unsigned", 64, Unsigned),
        Kind {
            name: "packed-dynamic",
            parts: |p| vec![Part::Word32(0..=p.l1_poly_degree().0 as u32), Part::Seq(glwe(p), 8)],
            make: |c, s| {
                let n = (s >> 40) as usize % c.params.l1_poly_degree().0;
                ser(PackedDynamicGenericInt::<L1GlweCiphertext, Unsigned>::from((n as u32, c.enc.encrypt_glwe_l1_secret(&poly(c, s, n), &c.sk))))
            },
            size: PackedDynamicGenericInt::<L1GlweCiphertext, Unsigned>::get_size,
            read: rd::<PackedDynamicGenericInt<L1GlweCiphertext, Unsigned>>,
            rlwe: false,
            keys: false,
        },
        Kind {
            name: "public-one-time-pad",
            parts: |p| vec![Part::Seq(glwe(p), 8)],
            make: |c, _| ser(generate_one_time_pad(&c.params, &c.enc, c.pk()).0),
            size: PublicOneTimePad::get_size,
            read: rd::<PublicOneTimePad>,
            rlwe: true,
            keys: false,
        },
        Kind {
            name: "secret-one-time-pad",
            parts: |p| vec![Part::Seq(p.l1_poly_degree().0, 8)],
            make: |c, _| ser(generate_one_time_pad(&c.params, &c.enc, c.pk()).1),
            size: SecretOneTimePad::get_size,
            read: rd::<SecretOneTimePad>,
            rlwe: true,
            keys: false,
        },
        Kind {
            name: "public-key",
            parts: |p| vec![Part::Seq(glwe(p), 8)],
            make: |c, _| ser(c.pk()),
            size: PublicKey::get_size,
            read: rd::<PublicKey>,
            rlwe: true,
            keys: true,
        },
        Kind {
            name: "secret-key",
            parts: |p| vec![Part::Seq(p.l0_params.dim.0, 8), Part::Seq(p.l1_params.dim.size.0 * p.l1_poly_degree().0, 8)],
            make: |c, _| ser(&c.sk),
            size: SecretKey::get_size,
            read: rd::<SecretKey>,
            rlwe: false,
            keys: true,
        },
        Kind {
            name: "compute-key-non-fft",
            parts: |p| vec![Part::Seq(bsk(p), 8), Part::Seq(ksk(p), 8), Part::Seq(atk(p), 8), Part::Seq(ssk(p), 8)],
            make: |c, _| ser(ComputeKeyNonFft::generate(&c.sk, &c.params)),
            size: ComputeKeyNonFft::get_size,
            read: rd::<ComputeKeyNonFft>,
            rlwe: false,
            keys: true,
        },
        Kind {
            name: "compute-key",
            // half as many complex elements as words
            parts: |p| vec![Part::Seq(bsk(p) / 2, 16), Part::Seq(ksk(p), 8), Part::Seq(ssk(p) / 2, 16), Part::Seq(atk(p) / 2, 16)],
            make: |c, _| ser(ComputeKey::generate(&c.sk, &c.params)),
            size: ComputeKey::get_size,
            read: rd::<ComputeKey>,
            rlwe: false,
            keys: true,
        },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// cut to this share of the length
    Cut(u16),
    /// cut or add a few bytes
    Trim(i8),
    /// append bytes
    Grow(Vec<u8>),
    /// the n-th structural word gets a value
    Word(u16, u64),
    /// the n-th structural word changes by a little
    Shift(u16, i8),
    /// structural word and content both, consistently: the n-th sequence is this much longer
    Stretch(u16, i8),
    /// the n-th structural word is consistent with a very long sequence that is really there
    Vast(u16),
    /// change bits anywhere
    Flip(u32, u8),
    /// every byte random
    Noise(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: usize,
    /// parameters of the object, and of the reader
    made: usize,
    read: usize,
    seed: u64,
    edits: Vec<Edit>,
}

/// Length of the stored form, and the offset and range of each structural word.
fn layout(parts: &[Part]) -> (usize, Vec<(usize, usize, std::ops::RangeInclusive<u64>)>) {
    let mut at = 0;
    let mut w = vec![];
    for p in parts {
        match p {
            Part::Word32(r) => {
                w.push((at, 4, *r.start() as u64..=*r.end() as u64));
                at += 4;
            }
            Part::Len(n) => {
                w.push((at, 8, *n..=*n));
                at += 8;
            }
            Part::Seq(n, width) => {
                w.push((at, 8, *n as u64..=*n as u64));
                at += 8 + n * width;
            }
        }
    }
    (at, w)
}
fn word(b: &[u8], at: usize, n: usize) -> Option<u64> {
    let s = b.get(at..at + n)?;
    let mut x = [0; 8];
    x[..n].copy_from_slice(s);
    Some(u64::from_le_bytes(x))
}

fn run(case: &Case, cov: &Cover) -> Res {
    let kinds = kinds();
    let kind = &kinds[case.kind % kinds.len()];
    let size_two = |i: usize| if kind.rlwe { 0 } else { i };
    let (made, read) = (size_two([0, 2][case.made % 2]), size_two([0, 2][case.read % 2]));
    let c = ctx(made);
    let params = &ctx(read).params;
    let genuine = if kind.keys { stored_key(case.kind % kinds.len(), made, kind) } else { (kind.make)(c, case.seed) };
    cov.label(kind.name);
    let (own_size, own_words) = layout(&(kind.parts)(&c.params));
    ensure_eq!(genuine.len(), own_size, "stored-size", "{}", kind.name);
    for (at, n, r) in &own_words {
        let w = word(&genuine, *at, *n);
        ensure!(w.is_some_and(|w| r.contains(&w)), "stored-shape", "{} at {at}", kind.name);
    }
    ensure_eq!((kind.size)(&c.params), own_size, "reported-size", "{}", kind.name);

    let mut b = genuine.clone();
    for e in &case.edits {
        let place = |i: &u16| &own_words[*i as usize % own_words.len()];
        let put = |b: &mut Vec<u8>, at: usize, n: usize, v: u64| {
            if at + n <= b.len() {
                b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        };
        match e {
            Edit::Cut(x) => {
                let n = b.len();
                b.truncate(n * *x as usize / 65536)
            }
            Edit::Trim(d) => {
                let n = (b.len() as isize + *d as isize).max(0) as usize;
                b.resize(n, 0xa5)
            }
            Edit::Grow(x) => b.extend(x),
            Edit::Word(i, v) => {
                let (at, n, _) = place(i);
                put(&mut b, *at, *n, *v)
            }
            Edit::Shift(i, d) => {
                let (at, n, _) = place(i);
                if let Some(w) = word(&b, *at, *n) {
                    put(&mut b, *at, *n, w.wrapping_add(*d as i64 as u64))
                }
            }
            Edit::Stretch(i, d) => {
                let i = *i as usize % own_words.len();
                let (at, n, _) = &own_words[i];
                let end = own_words.get(i + 1).map_or(own_size, |x| x.0);
                let len = word(&genuine, *at, *n).unwrap() as usize;
                if end <= b.len() && len > 0 && end > at + n {
                    let width = (end - at - n) / len;
                    let new = (len as isize + *d as isize).max(0) as usize;
                    put(&mut b, *at, *n, new as u64);
                    let tail = b.split_off(end);
                    b.resize(at + n + new * width, 0x11);
                    b.extend(tail);
                }
            }
            Edit::Vast(i) => {
                let (at, n, _) = place(i);
                let new = b.len() + (12 << 20);
                put(&mut b, *at, *n, 1 << 19);
                b.resize(new, 0);
            }
            Edit::Flip(at, x) => {
                if !b.is_empty() {
                    let at = *at as usize % b.len();
                    b[at] ^= x
                }
            }
            Edit::Noise(x) => b = x.clone(),
        }
    }
    // what the bytes are, read independently: shape words as the reader's parameters demand, then
    // anything, then possibly trailing bytes (which the format allows)
    let (size, words) = layout(&(kind.parts)(params));
    let good = b.len() >= size && words.iter().all(|(at, n, r)| word(&b, *at, *n).is_some_and(|w| r.contains(&w)));
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    let r = catch(|| (kind.read)(&b, params));
    let peak = PEAK.with(|p| p.get()) as usize;
    let r = match r {
        Err(e) => return fail("panic-on-stored-bytes", format!("{}: {e}", kind.name)),
        Ok(r) => r,
    };
    // the reader, growth by doubling, and storing again
    ensure!(peak <= 6 * size + (4 << 20), "over-allocation", "{}: {peak} bytes for an object of {size}", kind.name);
    match (good, r) {
        (true, Ok(back)) => {
            ensure!(back == b[..size], "round-trip", "{}: not the same object", kind.name);
            cov.label(if case.edits.is_empty() { "round trip" } else { "edited and still valid" });
        }
        (false, Err(_)) => cov.label("rejected"),
        (true, Err(e)) => return fail("valid-object-refused", format!("{}: {e}", kind.name)),
        (false, Ok(back)) => {
            let bad: Vec<String> = words.iter().filter(|(at, n, r)| !word(&b, *at, *n).is_some_and(|w| r.contains(&w))).map(|(at, n, r)| format!("word at {at} is {:?}, not in {r:?}", word(&b, *at, *n))).take(2).collect();
            return fail("malformed-object-accepted", format!("{}: {} bytes of {size}; {bad:?}; stored again as {} bytes", kind.name, b.len(), back.len()));
        }
    }
    cov.comparisons(1);
    cov.nontrivial_if(!case.edits.is_empty() || made == read);
    Ok(())
}

/// Keys are slow to make: one of each per parameter set.
fn stored_key(i: usize, k: usize, kind: &Kind) -> Vec<u8> {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static M: OnceLock<Mutex<HashMap<(usize, usize), Vec<u8>>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap();
    m.entry((i, k)).or_insert_with(|| (kind.make)(ctx(k), 0)).clone()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParamCase {
    w: [u16; 16],
    std: [f64; 2],
    cut: u16,
}
fn params(case: &ParamCase, cov: &Cover) -> Res {
    use sunscreen_tfhe::{rand::Stddev, *};
    let w = |i: usize| case.w[i] as usize;
    let r = |i: usize| RadixDecomposition { radix_log: RadixLog(w(i)), count: RadixCount(w(i + 1)) };
    let p = Params {
        l0_params: LweDef { dim: LweDimension(w(0)), std: Stddev(case.std[0]) },
        l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(w(1)), size: GlweSize(w(2)) }, std: Stddev(case.std[1]) },
        cbs_radix: r(3),
        pbs_radix: r(5),
        ks_radix: r(7),
        pfks_radix: r(9),
        ss_radix: r(11),
        tr_radix: r(13),
    };
    let b = bincode::serialize(&p).unwrap();
    let q: Params = match bincode::deserialize(&b) {
        Ok(q) => q,
        Err(e) => return fail("valid-object-refused", format!("parameters: {e}")),
    };
    ensure_eq!(format!("{q:?}"), format!("{p:?}"), "round-trip", "parameters");
    let cut = b.len() * case.cut as usize / 65536;
    ensure!(bincode::deserialize::<Params>(&b[..cut]).is_err(), "malformed-object-accepted", "parameters cut to {cut} bytes");
    cov.comparisons(2);
    cov.nontrivial();
    Ok(())
}

fn edit() -> BoxedStrategy<Edit> {
    let value = prop_oneof![
        3 => prop::sample::select(vec![0u64, 1, 2, 127, 128, 129, 256, 1 << 16, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 48, 1 << 60, 1 << 61, (1 << 61) + 1, 1 << 62, 1 << 63, u64::MAX, u64::MAX - 7, u64::MAX / 8, u64::MAX / 16 + 1, u64::MAX / 16]),
        1 => any::<u64>(),
        1 => 0u64..5000
    ];
    prop_oneof![
        20 => any::<u16>().prop_map(Edit::Cut),
        1 => any::<u16>().prop_map(Edit::Vast),
        20 => (-24i8..24).prop_map(Edit::Trim),
        10 => prop::collection::vec(any::<u8>(), 0..64).prop_map(Edit::Grow),
        40 => (any::<u16>(), value).prop_map(|(i, v)| Edit::Word(i, v)),
        30 => (any::<u16>(), -9i8..9).prop_map(|(i, d)| Edit::Shift(i, d)),
        30 => (any::<u16>(), -9i8..9).prop_map(|(i, d)| Edit::Stretch(i, d)),
        10 => (any::<u32>(), 1u8..).prop_map(|(i, d)| Edit::Flip(i, d)),
        10 => prop::collection::vec(any::<u8>(), 0..300).prop_map(Edit::Noise),
    ]
    .boxed()
}

pub fn check() -> Check {
    let n = kinds().len();
    let case = move |edits: BoxedStrategy<Vec<Edit>>| {
        (0..n, 0usize..2, prop::bool::weighted(0.15), any::<u64>(), edits)
            .prop_map(|(kind, made, cross, seed, edits)| Case { kind, made, read: made ^ cross as usize, seed, edits })
            .boxed()
    };
    Check {
        id: "R03",
        assumptions: vec![
            "bytes after the object are ignored, as the format is documented to do".into(),
            "GGSW ciphertexts and operation graphs have no stored form".into(),
            "an object is its words: what the words encrypt is not looked at by the reader".into(),
            "peak allocation is allowed six times the object's size plus 4 MiB".into(),
        ],
        subs: vec![
            sub("round-trip", 1500, 60000, "read under its own parameters", case(Just(vec![]).boxed()), run),
            sub("edited", 40000, 3_000_000, "the bytes were changed", case(prop_oneof![3 => prop::collection::vec(edit(), 1), 1 => prop::collection::vec(edit(), 2..4)].boxed()), run),
            sub(
                "parameters",
                2000,
                200_000,
                "every case",
                (any::<[u16; 16]>(), [prop::num::f64::POSITIVE | prop::num::f64::SUBNORMAL | prop::num::f64::NORMAL | prop::num::f64::ZERO, prop::num::f64::POSITIVE | prop::num::f64::SUBNORMAL], any::<u16>()).prop_map(|(w, std, cut)| ParamCase { w, std, cut }),
                params,
            ),
        ],
    }
}
