//! T14: views tile their buffers, lengths are exact, objects survive serialization.
use crate::common::*;
use crate::fhe::*;
use crate::{raw, raw_mut};
use num::complex::Complex64;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{entities::*, rand::Stddev, *};
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct ViewCase {
    wide: bool,
    dim: u8,
    dim2: u8,
    log_n: u8,
    k: u8,
    count: u8,
    radix_log: u8,
    lwes: u8,
    list: u8,
    /// true: next, false: next_back
    script: Vec<bool>,
    skip: u8,
    seed: u64,
}

fn view_case() -> BoxedStrategy<ViewCase> {
    (
        (any::<bool>(), 1u8..=6, 1u8..=6, 0u8..=5, 1u8..=4, 1u8..=5, 1u8..=6),
        (1u8..=3, 0u8..=5, prop::collection::vec(any::<bool>(), 0..24), 0u8..=4, any::<u64>()),
    )
        .prop_map(|((wide, dim, dim2, log_n, k, count, radix_log), (lwes, list, script, skip, seed))| ViewCase {
            wide,
            dim,
            dim2,
            log_n,
            k,
            count,
            radix_log,
            lwes,
            list,
            script,
            skip,
            seed,
        })
        .boxed()
}

/// What a view of `count` items of `stride` bytes starting at `base` has to produce.
#[derive(Clone, Copy)]
struct Tiles {
    base: usize,
    stride: usize,
    count: usize,
}
impl Tiles {
    fn at(&self, i: usize) -> (usize, usize) {
        (self.base + i * self.stride, self.stride)
    }
    fn all(&self) -> Vec<(usize, usize)> {
        (0..self.count).map(|i| self.at(i)).collect()
    }
}
type Loc = (usize, usize);

fn hint(it: &impl ExactSizeIterator<Item = Loc>, want: usize, name: &str, when: &str) -> Res {
    ensure_eq!(it.len(), want, "iterator-length", "{name}: len() {when}");
    ensure_eq!(it.size_hint(), (want, Some(want)), "iterator-size-hint", "{name}: size_hint() {when}");
    Ok(())
}

fn scripted(mut it: impl DoubleEndedIterator<Item = Loc> + ExactSizeIterator, script: &[bool], t: Tiles, name: &str) -> Res {
    let (mut lo, mut hi) = (0, t.count);
    hint(&it, t.count, name, "before iterating")?;
    let mut i = 0;
    loop {
        let front = if i < script.len() { script[i] } else { i % 3 != 0 };
        i += 1;
        let got = if front { it.next() } else { it.next_back() };
        if lo == hi {
            ensure!(got.is_none(), "iterator-past-end", "{name}: produced {got:?} after all {} items", t.count);
            ensure!(it.next().is_none() && it.next_back().is_none(), "iterator-past-end", "{name}: restarted after the end");
            hint(&it, 0, name, "when exhausted")?;
            return Ok(());
        }
        let want = if front {
            lo += 1;
            lo - 1
        } else {
            hi -= 1;
            hi
        };
        ensure_eq!(got, Some(t.at(want)), "view-item", "{name}: item {want} of {} taken from the {}", t.count, if front { "front" } else { "back" });
        hint(&it, hi - lo, name, "while iterating")?;
    }
}
fn forward(it: impl Iterator<Item = Loc>, t: Tiles, name: &str) -> Res {
    let got: Vec<_> = it.collect();
    ensure_eq!(got, t.all(), "view-forward", "{name} forwards");
    Ok(())
}
fn backward(it: impl DoubleEndedIterator<Item = Loc>, t: Tiles, name: &str) -> Res {
    let mut got: Vec<_> = it.rev().collect();
    got.reverse();
    ensure_eq!(got, t.all(), "view-backward", "{name} backwards");
    Ok(())
}
fn indexed(mut it: impl DoubleEndedIterator<Item = Loc> + ExactSizeIterator, skip: usize, t: Tiles, name: &str) -> Res {
    let skip = skip.min(t.count);
    for _ in 0..skip {
        it.next();
    }
    let mut got: Vec<_> = it.enumerate().rev().collect();
    got.reverse();
    let want: Vec<_> = (skip..t.count).map(|i| (i - skip, t.at(i))).collect();
    ensure_eq!(got, want, "view-enumerate-reversed", "{name} enumerated backwards after {skip}");
    Ok(())
}
fn zipped(it: impl DoubleEndedIterator<Item = Loc> + ExactSizeIterator, skip: usize, t: Tiles, name: &str) -> Res {
    let n = t.count.saturating_sub(skip);
    let other: Vec<usize> = (0..n).collect();
    let mut got: Vec<_> = it.zip(other.iter().copied()).rev().collect();
    got.reverse();
    let want: Vec<_> = (0..n).map(|i| (t.at(i), i)).collect();
    ensure_eq!(got, want, "view-zip-reversed", "{name} zipped with a shorter list, backwards");
    Ok(())
}
fn nth(mut it: impl DoubleEndedIterator<Item = Loc> + ExactSizeIterator, skip: usize, t: Tiles, name: &str) -> Res {
    let want = (skip < t.count).then(|| t.at(skip));
    ensure_eq!(it.nth(skip), want, "view-nth", "{name} nth({skip})");
    let left = t.count.saturating_sub(skip + 1);
    hint(&it, left, name, "after nth")?;
    let want = (left > 0).then(|| t.at(t.count - 1));
    ensure_eq!(it.last(), want, "view-last", "{name} last() after nth({skip})");
    Ok(())
}
fn par(it: impl IndexedParallelIterator<Item = Loc>, t: Tiles, name: &str) -> Res {
    ensure_eq!(it.len(), t.count, "parallel-length", "{name}: parallel len()");
    let got: Vec<_> = it.with_max_len(1).collect();
    ensure_eq!(got, t.all(), "view-parallel", "{name} in parallel");
    Ok(())
}
fn par_rev(it: impl IndexedParallelIterator<Item = Loc>, skip: usize, t: Tiles, name: &str) -> Res {
    let got: Vec<_> = it.skip(skip).enumerate().rev().collect();
    let mut want: Vec<_> = (skip..t.count).map(|i| (i - skip, t.at(i))).collect();
    want.reverse();
    ensure_eq!(got, want, "view-parallel-reversed", "{name} in parallel, skipping {skip}, reversed");
    Ok(())
}
fn par_zip(it: impl IndexedParallelIterator<Item = Loc>, skip: usize, t: Tiles, name: &str) -> Res {
    let chunk = skip.max(1);
    let got: Vec<Vec<_>> = it.zip((0..t.count).into_par_iter()).chunks(chunk).collect();
    let items: Vec<_> = (0..t.count).map(|i| (t.at(i), i)).collect();
    let want: Vec<Vec<_>> = items.chunks(chunk).map(|x| x.to_vec()).collect();
    ensure_eq!(got, want, "view-parallel-chunks", "{name} in parallel, zipped, by {chunk}");
    Ok(())
}

macro_rules! loc {
    ($x:expr) => {{
        let r = &*$x;
        (r as *const _ as *const u8 as usize, std::mem::size_of_val(r))
    }};
}
macro_rules! walk {
    ($c:expr, $cov:expr, $t:expr, $name:expr, $it:expr) => {{
        let (t, n): (Tiles, &str) = ($t, &$name);
        scripted($it.map(|x| loc!(x)), &$c.script, t, n)?;
        forward($it.map(|x| loc!(x)), t, n)?;
        backward($it.map(|x| loc!(x)), t, n)?;
        indexed($it.map(|x| loc!(x)), $c.skip as usize, t, n)?;
        zipped($it.map(|x| loc!(x)), $c.skip as usize, t, n)?;
        nth($it.map(|x| loc!(x)), $c.skip as usize, t, n)?;
        $cov.comparisons(6 * t.count as u64 + 6);
    }};
}
macro_rules! walk_par {
    ($c:expr, $cov:expr, $t:expr, $name:expr, $it:expr) => {{
        let (t, n): (Tiles, &str) = ($t, &$name);
        par($it.map(|x| loc!(x)), t, n)?;
        par_rev($it.map(|x| loc!(x)), $c.skip as usize, t, n)?;
        par_zip($it.map(|x| loc!(x)), $c.skip as usize, t, n)?;
        $cov.comparisons(3 * t.count as u64);
    }};
}
/// Both the shared and the mutable view.
macro_rules! walk2 {
    ($c:expr, $cov:expr, $t:expr, $name:expr, $it:expr, $it_mut:expr) => {{
        walk!($c, $cov, $t, $name, $it);
        walk!($c, $cov, $t, format!("{} (mut)", $name), $it_mut);
    }};
}

/// Element types of entity buffers.
trait Elem: Copy + PartialEq + std::fmt::Debug {
    fn gen(r: &mut Sm) -> Self;
    fn words(self) -> (u64, u64);
}
impl<S: Word> Elem for Torus<S> {
    fn gen(r: &mut Sm) -> Self {
        t::<S>(r.next() | 1)
    }
    fn words(self) -> (u64, u64) {
        (self.inner().u(), 0)
    }
}
impl Elem for u32 {
    fn gen(r: &mut Sm) -> Self {
        r.next() as u32 | 1
    }
    fn words(self) -> (u64, u64) {
        (self as u64, 0)
    }
}
impl Elem for u64 {
    fn gen(r: &mut Sm) -> Self {
        r.next() | 1
    }
    fn words(self) -> (u64, u64) {
        (self, 0)
    }
}
impl Elem for Complex64 {
    fn gen(r: &mut Sm) -> Self {
        // any finite floats
        let mut f = || {
            let x = f64::from_bits(r.next());
            if x.is_finite() && x != 0.0 {
                x
            } else {
                r.below(1000) as f64 + 0.25
            }
        };
        Complex64::new(f(), f())
    }
    fn words(self) -> (u64, u64) {
        (self.re.to_bits(), self.im.to_bits())
    }
}
fn bits<E: Elem>(x: &[E]) -> Vec<(u64, u64)> {
    x.iter().map(|x| x.words()).collect()
}
fn randomize<E: Elem>(x: &mut [E], r: &mut Sm) {
    for y in x {
        *y = E::gen(r);
    }
}
fn is_valid<T: OverlaySize + ?Sized>(x: &T, i: T::Inputs) -> bool {
    x.check_is_valid(i).is_ok()
}
fn length<T: OverlaySize + ?Sized>(x: &T) -> usize {
    x.len()
}

/// Sizes and ownership of one entity; leaves random contents in it.
macro_rules! entity_only {
    ($c:expr, $cov:expr, $rng:expr, $x:ident, $own:ident<$p:ty>, $rf:ident, $e:ty, $len:expr, $inputs:expr, $wrong:expr) => {{
        let name = stringify!($own);
        let len: usize = $len;
        ensure_eq!(raw!($x, $rf, $e).len(), len, "entity-length", "{name}: words of a new one");
        ensure!(bits(raw!($x, $rf, $e)).iter().all(|x| *x == (0, 0)), "new-not-zero", "{name}::new is not all zero");
        ensure_eq!(<$rf<$p> as OverlaySize>::size($inputs), len, "entity-size", "{name}: size()");
        ensure_eq!(length::<$rf<$p>>(&$x), len, "entity-len", "{name}: len()");
        ensure!(is_valid::<$rf<$p>>(&$x, $inputs), "valid-refused", "{name}: refused under its own parameters");
        for (what, w) in $wrong {
            let want = <$rf<$p> as OverlaySize>::size(w) == len;
            ensure_eq!(is_valid::<$rf<$p>>(&$x, w), want, "check-is-valid", "{name}: against another {what}");
        }
        randomize::<$e>(raw_mut!($x, $rf, $e), &mut $rng);
        let orig = bits(raw!($x, $rf, $e));
        // copies
        let copy: $own<$p> = $x.clone();
        ensure_eq!(bits(raw!(copy, $rf, $e)), orig, "clone", "{name}: clone");
        let own: $own<$p> = (*$x).to_owned();
        ensure_eq!(bits(raw!(own, $rf, $e)), orig, "to-owned", "{name}: to_owned");
        ensure!(own == $x && copy == $x && *own == *$x, "equality", "{name}: copies compare unequal");
        ensure_eq!(raw!(own, $rf, $e).as_ptr() as usize % 64, 0, "alignment", "{name}: to_owned buffer not 64-byte aligned");
        ensure_eq!(raw!(copy, $rf, $e).as_ptr() as usize % 64, 0, "alignment", "{name}: cloned buffer not 64-byte aligned");
        if len > 0 {
            // equality sees every word
            let mut other = $x.clone();
            let i = $rng.below(len as u64) as usize;
            let old = raw!(other, $rf, $e)[i];
            while raw!(other, $rf, $e)[i] == old {
                raw_mut!(other, $rf, $e)[i] = <$e as Elem>::gen(&mut $rng);
            }
            ensure!(other != $x && *other != *$x, "equality-blind", "{name}: equality ignores word {i} of {len}");
            other.clone_from_ref(&$x);
            ensure_eq!(bits(raw!(other, $rf, $e)), orig, "clone-from-ref", "{name}: clone_from_ref");
            other.clear();
            ensure!(bits(raw!(other, $rf, $e)).iter().all(|x| *x == (0, 0)), "clear", "{name}: clear leaves words");
            ensure_eq!(bits(raw!($x, $rf, $e)), orig, "copy-aliases", "{name}: changing a copy changed the original");
        }
        $cov.comparisons(10);
    }};
}

/// Serialization of one entity, whatever its contents.
macro_rules! serial {
    ($x:ident, $own:ident<$p:ty>, $rf:ident, $e:ty) => {{
        let name = stringify!($own);
        let orig = bits(raw!($x, $rf, $e));
        let bytes = bincode::serialize(&$x).map_err(|e| vkit::fail::<()>("serialize", format!("{name}: {e}")).unwrap_err())?;
        let back: std::result::Result<$own<$p>, _> = bincode::deserialize(&bytes);
        let back = match back {
            Ok(b) => b,
            Err(e) => return vkit::fail("deserialize", format!("{name}: {e}")),
        };
        ensure_eq!(bits(raw!(back, $rf, $e)), orig, "round-trip", "{name}: serialized and deserialized");
        ensure_eq!(raw!(back, $rf, $e).as_ptr() as usize % 64, 0, "alignment", "{name}: deserialized buffer not 64-byte aligned");
        ensure!(back == $x, "round-trip-equal", "{name}: deserialized object compares unequal");
        ensure_eq!(bincode::serialize(&back).unwrap_or_default(), bytes, "round-trip-bytes", "{name}: serialized again");
    }};
}
/// `entity_only` and serialization.
macro_rules! entity {
    ($c:expr, $cov:expr, $rng:expr, $x:ident, $own:ident<$p:ty>, $rf:ident, $e:ty, $len:expr, $inputs:expr, $wrong:expr) => {{
        entity_only!($c, $cov, $rng, $x, $own<$p>, $rf, $e, $len, $inputs, $wrong);
        serial!($x, $own<$p>, $rf, $e);
    }};
}

struct Defs {
    l: LweDef,
    l2: LweDef,
    g: GlweDef,
    r: RadixDecomposition,
    n: usize,
    k: usize,
    cnt: usize,
    dim: usize,
    dim2: usize,
}
impl ViewCase {
    fn defs(&self) -> Defs {
        let (n, k) = (1usize << self.log_n, self.k as usize);
        Defs {
            l: lwe_def(self.dim as usize, 0.1),
            l2: lwe_def(self.dim2 as usize, 0.1),
            g: glwe_def(n, k, 0.1),
            r: rad(self.radix_log as usize, self.count as usize),
            n,
            k,
            cnt: self.count as usize,
            dim: self.dim as usize,
            dim2: self.dim2 as usize,
        }
    }
}
macro_rules! tiles {
    ($x:expr, $rf:ident, $e:ty, $stride:expr) => {{
        let s = raw!($x, $rf, $e);
        let stride: usize = $stride;
        Tiles { base: s.as_ptr() as usize, stride: stride * std::mem::size_of::<$e>(), count: s.len() / stride }
    }};
}
/// A sub-object seen through a shared and a mutable accessor: same place, given offset and length (in words).
macro_rules! piece {
    ($x:expr, $rf:ident, $e:ty, $name:literal, $off:expr, $len:expr, $get:expr, $get_mut:expr) => {{
        let base = raw!($x, $rf, $e).as_ptr() as usize;
        let sz = std::mem::size_of::<$e>();
        let want = (base + $off * sz, $len * sz);
        ensure_eq!(loc!($get), want, "piece", "{}: shared view", $name);
        ensure_eq!(loc!($get_mut), want, "piece-mut", "{}: mutable view", $name);
    }};
}

fn lwe_dims(c: &Defs) -> Vec<(&'static str, LweDimension)> {
    vec![("dimension", LweDimension(c.dim + 1)), ("dimension", LweDimension(c.dim2))]
}
fn gdim(n: usize, k: usize) -> GlweDimension {
    GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }
}
fn glwe_dims(c: &Defs) -> Vec<(&'static str, GlweDimension)> {
    vec![("degree", gdim(2 * c.n, c.k)), ("size", gdim(c.n, c.k + 1)), ("size and degree", gdim(2 * c.n, c.k + 1))]
}
fn glev_dims(c: &Defs) -> Vec<(&'static str, (GlweDimension, RadixCount))> {
    let mut v: Vec<_> = glwe_dims(c).into_iter().map(|(s, d)| (s, (d, RadixCount(c.cnt)))).collect();
    v.push(("count", (c.g.dim, RadixCount(c.cnt + 1))));
    v
}
fn lg_dims(c: &Defs) -> Vec<(&'static str, (LweDimension, GlweDimension, RadixCount))> {
    let mut v: Vec<_> = glev_dims(c).into_iter().map(|(s, (d, n))| (s, (c.l.dim, d, n))).collect();
    v.extend(lwe_dims(c).into_iter().map(|(s, d)| (s, (d, c.g.dim, RadixCount(c.cnt)))));
    v
}

fn lwe_views<S: Word + Elem>(c: &ViewCase, cov: &Cover) -> Res {
    let d = c.defs();
    let mut r = Sm(c.seed);
    let rng = &mut r;
    let lw = d.dim + 1;
    let mut x = LweCiphertext::<S>::new(&d.l);
    entity!(c, cov, *rng, x, LweCiphertext<S>, LweCiphertextRef, Torus<S>, lw, d.l.dim, lwe_dims(&d));
    piece!(x, LweCiphertextRef, Torus<S>, "lwe a", 0, d.dim, x.a(&d.l), x.a_mut(&d.l));
    piece!(x, LweCiphertextRef, Torus<S>, "lwe b", d.dim, 1, x.b(&d.l), x.b_mut(&d.l));
    piece!(x, LweCiphertextRef, Torus<S>, "lwe a_b.0", 0, d.dim, x.a_b(&d.l).0, x.a_b_mut(&d.l).0);
    piece!(x, LweCiphertextRef, Torus<S>, "lwe a_b.1", d.dim, 1, x.a_b(&d.l).1, x.a_b_mut(&d.l).1);

    let k = LweSecretKey::<S>::generate_uniform(&d.l);
    ensure_eq!(loc!(k.s()), loc!(raw!(k, LweSecretKeyRef, S)), "piece", "secret key words");
    ensure_eq!(k.s().len(), d.dim, "entity-length", "lwe secret key");
    let bytes = bincode::serialize(&k).unwrap_or_default();
    let back: LweSecretKey<S> = bincode::deserialize(&bytes).or_else(|e| vkit::fail("deserialize", format!("LweSecretKey: {e}")))?;
    ensure_eq!(bits(back.s()), bits(k.s()), "round-trip", "LweSecretKey");
    ensure!(back == k, "round-trip-equal", "LweSecretKey");

    let mut x = LweCiphertextList::<S>::new(&d.l, c.list as usize);
    let other = vec![("dimension", (LweDimension(d.dim + 1), c.list as usize)), ("count", (d.l.dim, c.list as usize + 1))];
    entity!(c, cov, *rng, x, LweCiphertextList<S>, LweCiphertextListRef, Torus<S>, lw * c.list as usize, (d.l.dim, c.list as usize), other);
    walk2!(c, cov, tiles!(x, LweCiphertextListRef, Torus<S>, lw), "lwe list", x.ciphertexts(&d.l), x.ciphertexts_mut(&d.l));

    let mut x = LweKeyswitchKey::<S>::new(&d.l, &d.l2, &d.r);
    let row = d.cnt * (d.dim2 + 1);
    let other = vec![
        ("from", (LweDimension(d.dim + 1), d.l2.dim, d.r.count)),
        ("to", (d.l.dim, LweDimension(d.dim2 + 1), d.r.count)),
        ("count", (d.l.dim, d.l2.dim, RadixCount(d.cnt + 1))),
        ("swapped", (d.l2.dim, d.l.dim, d.r.count)),
    ];
    entity!(c, cov, *rng, x, LweKeyswitchKey<S>, LweKeyswitchKeyRef, Torus<S>, d.dim * row, (d.l.dim, d.l2.dim, d.r.count), other);
    walk2!(c, cov, tiles!(x, LweKeyswitchKeyRef, Torus<S>, row), "lwe keyswitch key", x.rows(&d.l2, &d.r), x.rows_mut(&d.l2, &d.r));
    let mut lev = x.rows(&d.l2, &d.r).next_back().unwrap().to_owned();
    ensure!(
        is_valid::<LevCiphertextRef<S>>(&lev, (d.l2.dim, d.r.count)) && !is_valid::<LevCiphertextRef<S>>(&lev, (LweDimension(d.dim2 + 1), d.r.count)),
        "check-is-valid",
        "lev"
    );
    walk2!(c, cov, tiles!(lev, LevCiphertextRef, Torus<S>, d.dim2 + 1), "lev", lev.lwe_ciphertexts(&d.l2), lev.lwe_ciphertexts_mut(&d.l2));

    let mut x = LwePublicKey::<S>::generate(&k, &d.l);
    raw_mut!(x, LwePublicKeyRef, Torus<S>).fill(t::<S>(0));
    entity!(c, cov, *rng, x, LwePublicKey<S>, LwePublicKeyRef, Torus<S>, lw * d.dim, d.l.dim, lwe_dims(&d));
    walk2!(c, cov, tiles!(x, LwePublicKeyRef, Torus<S>, lw), "lwe public key", x.enc_zeros(&d.l), x.enc_zeros_mut(&d.l));
    cov.label(S::NAME);
    cov.nontrivial_if(d.dim > 1 && d.cnt > 1);
    Ok(())
}

fn glwe_views<S: Word + Elem>(c: &ViewCase, cov: &Cover) -> Res {
    let d = c.defs();
    let (n, k) = (d.n, d.k);
    let mut r = Sm(c.seed);
    let rng = &mut r;
    let gw = (k + 1) * n;
    let vw = gw * d.cnt;
    let mut x = GlweCiphertext::<S>::new(&d.g);
    entity!(c, cov, *rng, x, GlweCiphertext<S>, GlweCiphertextRef, Torus<S>, gw, d.g.dim, glwe_dims(&d));
    let mut a = tiles!(x, GlweCiphertextRef, Torus<S>, n);
    a.count -= 1;
    walk2!(c, cov, a, "glwe a", x.a(&d.g), x.a_mut(&d.g));
    walk2!(c, cov, a, "glwe a_b.0", x.a_b(&d.g).0, x.a_b_mut(&d.g).0);
    piece!(x, GlweCiphertextRef, Torus<S>, "glwe b", n * k, n, x.b(&d.g), x.b_mut(&d.g));
    piece!(x, GlweCiphertextRef, Torus<S>, "glwe a_b.1", n * k, n, x.a_b(&d.g).1, x.a_b_mut(&d.g).1);
    let words: Vec<S> = raw!(x, GlweCiphertextRef, Torus<S>).iter().map(|x| x.inner()).collect();
    ensure!(GlweCiphertext::<S>::from_slice(&words, &d.g) == x, "from-slice", "GlweCiphertext::from_slice");

    // polynomials
    let mut p = x.b(&d.g).to_owned();
    raw_mut!(p, PolynomialRef, Torus<S>).fill(t::<S>(0));
    let other = vec![("degree", PolynomialDegree(n + 1)), ("degree", PolynomialDegree(2 * n))];
    entity!(c, cov, *rng, p, Polynomial<Torus<S>>, PolynomialRef, Torus<S>, n, PolynomialDegree(n), other);
    piece!(p, PolynomialRef, Torus<S>, "coefficients", 0, n, p.coeffs(), p.coeffs_mut());
    ensure_eq!((p.degree().0, PolynomialRef::len(&p), p.is_empty()), (n, n, false), "polynomial-degree", "degree, len, is_empty");
    let plain: Polynomial<S> = p.map(|x| x.inner());
    ensure_eq!(upoly::<S>(&plain), utpoly::<S>(&p), "polynomial-map", "map");
    let mut into = Polynomial::<S>::zero(n);
    p.map_into(&mut into, |x| x.inner());
    ensure!(into == plain && Polynomial::new(plain.coeffs()) == plain && plain.coeffs().iter().copied().collect::<Polynomial<S>>() == plain, "polynomial-build", "map_into, new, from_iter");
    ensure_eq!(loc!(plain.as_torus()), loc!(plain.coeffs()), "polynomial-cast", "as_torus");
    ensure!(*plain.as_torus() == *p, "polynomial-cast", "as_torus changes the coefficients");
    ensure!(plain.as_wrapping().coeffs().iter().map(|x| x.0.u()).eq(upoly::<S>(&plain)), "polynomial-cast", "as_wrapping");
    ensure_eq!(loc!(into.as_wrapping_mut()), loc!(into.coeffs()), "polynomial-cast", "as_wrapping_mut");
    let mut pl = PolynomialList::<S>::new(PolynomialDegree(n), c.list as usize);
    let other = vec![("count", (PolynomialDegree(n), c.list as usize + 1)), ("degree", (PolynomialDegree(2 * n), c.list as usize))];
    entity_only!(c, cov, *rng, pl, PolynomialList<S>, PolynomialListRef, S, n * c.list as usize, (PolynomialDegree(n), c.list as usize), other);
    walk2!(c, cov, tiles!(pl, PolynomialListRef, S, n), "polynomial list", pl.iter(PolynomialDegree(n)), pl.iter_mut(PolynomialDegree(n)));

    let mut x = GlweSecretKey::<S>::generate_uniform(&d.g);
    raw_mut!(x, GlweSecretKeyRef, S).fill(S::of(0));
    entity!(c, cov, *rng, x, GlweSecretKey<S>, GlweSecretKeyRef, S, k * n, d.g.dim, glwe_dims(&d));
    walk2!(c, cov, tiles!(x, GlweSecretKeyRef, S, n), "glwe secret key", x.s(&d.g), x.s_mut(&d.g));
    walk_par!(c, cov, tiles!(x, GlweSecretKeyRef, S, n), "glwe secret key (parallel)", x.s_par(&d.g));
    ensure_eq!(loc!(x.to_lwe_secret_key()), loc!(raw!(x, GlweSecretKeyRef, S)), "piece", "to_lwe_secret_key");

    let mut x = GlweCiphertextList::<S>::new(&d.g, c.list as usize);
    let other = vec![("count", (d.g.dim, c.list as usize + 1)), ("degree", (gdim(2 * n, k), c.list as usize))];
    entity!(c, cov, *rng, x, GlweCiphertextList<S>, GlweCiphertextListRef, Torus<S>, gw * c.list as usize, (d.g.dim, c.list as usize), other);
    walk2!(c, cov, tiles!(x, GlweCiphertextListRef, Torus<S>, gw), "glwe list", x.ciphertexts(&d.g), x.ciphertexts_mut(&d.g));

    let mut x = RlwePublicKey::<S>::new(&glwe_def(n, 1, 0.1));
    entity!(c, cov, *rng, x, RlwePublicKey<S>, RlwePublicKeyRef, Torus<S>, 2 * n, gdim(n, 1), vec![("degree", gdim(2 * n, 1)), ("size", gdim(n, 2))]);
    piece!(x, RlwePublicKeyRef, Torus<S>, "public key", 0, 2 * n, x.zero_encryption(), x.zero_encryption_mut());
    let g1 = glwe_def(n, 1, 0.1);
    let (p0, p1) = x.p0_p1(&g1);
    let (pl, pr) = (loc!(p0), loc!(p1));
    let base = raw!(x, RlwePublicKeyRef, Torus<S>).as_ptr() as usize;
    let w = n * std::mem::size_of::<S>();
    let mut both = [pl, pr];
    both.sort();
    ensure_eq!(both, [(base, w), (base + w, w)], "piece", "public key halves");

    let mut x = UnivariateLookupTable::<S>::trivial_from_fn(|x| x, &glwe_def(16.max(n), k, 0.1), PlaintextBits(2));
    let big = 16.max(n);
    raw_mut!(x, UnivariateLookupTableRef, Torus<S>).fill(t::<S>(0));
    entity!(c, cov, *rng, x, UnivariateLookupTable<S>, UnivariateLookupTableRef, Torus<S>, big * (k + 1), gdim(big, k), vec![("size", gdim(big, k + 1)), ("degree", gdim(2 * big, k))]);
    piece!(x, UnivariateLookupTableRef, Torus<S>, "lookup table", 0, big * (k + 1), x.glwe(), x.glwe_mut());

    let mut x = GlevCiphertext::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, GlevCiphertext<S>, GlevCiphertextRef, Torus<S>, vw, (d.g.dim, d.r.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, GlevCiphertextRef, Torus<S>, gw), "glev", x.glwe_ciphertexts(&d.g), x.glwe_ciphertexts_mut(&d.g));

    let mut x = GgswCiphertext::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, GgswCiphertext<S>, GgswCiphertextRef, Torus<S>, vw * (k + 1), (d.g.dim, d.r.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, GgswCiphertextRef, Torus<S>, vw), "ggsw", x.rows(&d.g, &d.r), x.rows_mut(&d.g, &d.r));
    ensure!(GgswCiphertext::<S>::from_slice(raw!(x, GgswCiphertextRef, Torus<S>), &d.g, &d.r) == x, "from-slice", "GgswCiphertext::from_slice");

    let mut x = GlweKeyswitchKey::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, GlweKeyswitchKey<S>, GlweKeyswitchKeyRef, Torus<S>, vw * k, (d.g.dim, d.r.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, GlweKeyswitchKeyRef, Torus<S>, vw), "glwe keyswitch key", x.rows(&d.g, &d.r), x.rows_mut(&d.g, &d.r));

    let mut x = AutomorphismKey::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, AutomorphismKey<S>, AutomorphismKeyRef, Torus<S>, vw * k * c.log_n as usize, (d.g.dim, d.r.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, AutomorphismKeyRef, Torus<S>, vw * k), "automorphism key", x.keyswitch_keys(&d.g, &d.r), x.keyswitch_keys_mut(&d.g, &d.r));

    let mut x = SchemeSwitchKey::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, SchemeSwitchKey<S>, SchemeSwitchKeyRef, Torus<S>, vw * k * (k + 1) / 2, (d.g.dim, d.r.count), glev_dims(&d));
    let ts = tiles!(x, SchemeSwitchKeyRef, Torus<S>, vw);
    walk2!(c, cov, ts, "scheme switch key", x.glev_ciphertexts(&d.g, &d.r), x.glev_ciphertexts_mut(&d.g, &d.r));
    let mut at = 0;
    for i in 0..k {
        for j in i..k {
            // (0,0), (0,1), .., (0,k-1), (1,1), ..
            for (i, j) in [(i, j), (j, i)] {
                ensure_eq!(loc!(x.get_glev_at_index(i, j, &d.g, &d.r)), ts.at(at), "triangular-index", "scheme switch key entry ({i},{j}) of {k}");
                ensure_eq!(loc!(x.get_glev_at_index_mut(i, j, &d.g, &d.r)), ts.at(at), "triangular-index", "mutable scheme switch key entry ({i},{j}) of {k}");
            }
            at += 1;
        }
    }

    let mut x = BlindRotationShift::<S>::new(&d.g, &d.r);
    entity!(c, cov, *rng, x, BlindRotationShift<S>, BlindRotationShiftRef, Torus<S>, vw * (k + 1) * c.log_n as usize, (d.g.dim, d.r.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, BlindRotationShiftRef, Torus<S>, vw * (k + 1)), "blind rotation shift", x.rows(&d.g, &d.r), x.rows_mut(&d.g, &d.r));
    cov.label(S::NAME);
    cov.nontrivial_if(k > 1 && d.cnt > 1);
    Ok(())
}

fn key_views<S: Word + Elem>(c: &ViewCase, cov: &Cover) -> Res {
    let d = c.defs();
    let (n, k) = (d.n, d.k);
    let mut r = Sm(c.seed);
    let rng = &mut r;
    let vw = (k + 1) * n * d.cnt;
    let mut x = BootstrapKey::<S>::new(&d.l, &d.g, &d.r);
    entity!(c, cov, *rng, x, BootstrapKey<S>, BootstrapKeyRef, Torus<S>, vw * (k + 1) * d.dim, (d.l.dim, d.g.dim, d.r.count), lg_dims(&d));
    let ts = tiles!(x, BootstrapKeyRef, Torus<S>, vw * (k + 1));
    walk2!(c, cov, ts, "bootstrap key", x.rows(&d.g, &d.r), x.rows_mut(&d.g, &d.r));
    walk_par!(c, cov, ts, "bootstrap key (parallel)", x.rows_par(&d.g, &d.r));
    walk_par!(c, cov, ts, "bootstrap key (parallel mut)", x.rows_par_mut(&d.g, &d.r));

    let m = PrivateFunctionalKeyswitchLweCount(c.lwes as usize);
    let mut x = PrivateFunctionalKeyswitchKey::<S>::new(&d.l, &d.g, &d.r, &m);
    let mut other: Vec<_> = lg_dims(&d).into_iter().map(|(s, (a, b, e))| (s, (a, b, e, m))).collect();
    other.push(("inputs", (d.l.dim, d.g.dim, d.r.count, PrivateFunctionalKeyswitchLweCount(m.0 + 1))));
    entity!(c, cov, *rng, x, PrivateFunctionalKeyswitchKey<S>, PrivateFunctionalKeyswitchKeyRef, Torus<S>, vw * (d.dim + 1) * m.0, (d.l.dim, d.g.dim, d.r.count, m), other);
    let ts = tiles!(x, PrivateFunctionalKeyswitchKeyRef, Torus<S>, vw);
    walk2!(c, cov, ts, "private functional keyswitch key", x.glevs(&d.g, &d.r), x.glevs_mut(&d.g, &d.r));
    walk_par!(c, cov, ts, "private functional keyswitch key (parallel)", x.glevs_par(&d.g, &d.r));
    walk_par!(c, cov, ts, "private functional keyswitch key (parallel mut)", x.glevs_par_mut(&d.g, &d.r));

    let mut x = PublicFunctionalKeyswitchKey::<S>::new(&d.l, &d.g, &d.r);
    entity!(c, cov, *rng, x, PublicFunctionalKeyswitchKey<S>, PublicFunctionalKeyswitchKeyRef, Torus<S>, vw * d.dim, (d.l.dim, d.g.dim, d.r.count), lg_dims(&d));
    walk2!(c, cov, tiles!(x, PublicFunctionalKeyswitchKeyRef, Torus<S>, vw), "public functional keyswitch key", x.glevs(&d.g, &d.r), x.glevs_mut(&d.g, &d.r));

    let mut x = CircuitBootstrappingKeyswitchKeys::<S>::new(&d.l, &d.g, &d.r);
    entity!(c, cov, *rng, x, CircuitBootstrappingKeyswitchKeys<S>, CircuitBootstrappingKeyswitchKeysRef, Torus<S>, vw * (d.dim + 1) * (k + 1), (d.l.dim, d.g.dim, d.r.count), lg_dims(&d));
    let ts = tiles!(x, CircuitBootstrappingKeyswitchKeysRef, Torus<S>, vw * (d.dim + 1));
    walk2!(c, cov, ts, "circuit bootstrapping keys", x.keys(&d.l, &d.g, &d.r), x.keys_mut(&d.l, &d.g, &d.r));
    walk_par!(c, cov, ts, "circuit bootstrapping keys (parallel)", x.keys_par(&d.l, &d.g, &d.r));
    walk_par!(c, cov, ts, "circuit bootstrapping keys (parallel mut)", x.keys_par_mut(&d.l, &d.g, &d.r));
    cov.label(S::NAME);
    cov.nontrivial_if(d.dim > 1 && k > 1 && d.cnt > 1);
    Ok(())
}

/// Fourier entities: shapes, and conversion there and back.
fn fourier_views<S: Word + Elem>(c: &ViewCase, cov: &Cover) -> Res {
    let mut d = c.defs();
    d.n = d.n.max(16);
    d.g = glwe_def(d.n, d.k, 0.1);
    let (n, k, g, rx) = (d.n, d.k, d.g, d.r);
    let logn = n.ilog2() as usize;
    let mut r = Sm(c.seed);
    let rng = &mut r;
    type Z = Complex64;
    let h = n / 2;
    let gw = (k + 1) * h;
    let vw = gw * d.cnt;
    let mut x = PolynomialFft::<Z>::new(&vec![Z::new(0.0, 0.0); h]);
    entity_only!(c, cov, *rng, x, PolynomialFft<Z>, PolynomialFftRef, Z, h, PolynomialDegree(n), vec![("degree", PolynomialDegree(2 * n)), ("degree", PolynomialDegree(n / 2))]);
    piece!(x, PolynomialFftRef, Z, "fourier coefficients", 0, h, x.coeffs(), x.coeffs_mut());
    let mut x = GlweCiphertextFft::<Z>::new(&g);
    entity!(c, cov, *rng, x, GlweCiphertextFft<Z>, GlweCiphertextFftRef, Z, gw, g.dim, glwe_dims(&d));
    let mut a = tiles!(x, GlweCiphertextFftRef, Z, h);
    a.count -= 1;
    walk2!(c, cov, a, "fourier glwe a", x.a(&g), x.a_mut(&g));
    walk2!(c, cov, a, "fourier glwe a_b.0", x.a_b(&g).0, x.a_b_mut(&g).0);
    piece!(x, GlweCiphertextFftRef, Z, "fourier glwe b", h * k, h, x.b(&g), x.b_mut(&g));
    piece!(x, GlweCiphertextFftRef, Z, "fourier glwe a_b.1", h * k, h, x.a_b(&g).1, x.a_b_mut(&g).1);
    let mut x = GgswCiphertextFft::<Z>::new(&g, &rx);
    entity!(c, cov, *rng, x, GgswCiphertextFft<Z>, GgswCiphertextFftRef, Z, vw * (k + 1), (g.dim, rx.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, GgswCiphertextFftRef, Z, vw), "fourier ggsw", x.rows(&g, &rx), x.rows_mut(&g, &rx));
    let mut v = x.rows(&g, &rx).next().unwrap().to_owned();
    walk2!(c, cov, tiles!(v, GlevCiphertextFftRef, Z, gw), "fourier glev", v.glwe_ciphertexts(&g), v.glwe_ciphertexts_mut(&g));
    let mut x = GlweKeyswitchKeyFft::<Z>::new(&g, &rx);
    entity!(c, cov, *rng, x, GlweKeyswitchKeyFft<Z>, GlweKeyswitchKeyFftRef, Z, vw * k, (g.dim, rx.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, GlweKeyswitchKeyFftRef, Z, vw), "fourier glwe keyswitch key", x.rows(&g, &rx), x.rows_mut(&g, &rx));
    let mut x = AutomorphismKeyFft::<Z>::new(&g, &rx);
    entity!(c, cov, *rng, x, AutomorphismKeyFft<Z>, AutomorphismKeyFftRef, Z, vw * k * logn, (g.dim, rx.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, AutomorphismKeyFftRef, Z, vw * k), "fourier automorphism key", x.keyswitch_keys(&g, &rx), x.keyswitch_keys_mut(&g, &rx));
    let mut x = SchemeSwitchKeyFft::<Z>::new(&g, &rx);
    entity!(c, cov, *rng, x, SchemeSwitchKeyFft<Z>, SchemeSwitchKeyFftRef, Z, vw * k * (k + 1) / 2, (g.dim, rx.count), glev_dims(&d));
    let ts = tiles!(x, SchemeSwitchKeyFftRef, Z, vw);
    walk2!(c, cov, ts, "fourier scheme switch key", x.glev_ciphertexts(&g, &rx), x.glev_ciphertexts_mut(&g, &rx));
    let mut at = 0;
    for i in 0..k {
        for j in i..k {
            for (i, j) in [(i, j), (j, i)] {
                ensure_eq!(loc!(x.get_glev_at_index(i, j, &g, &rx)), ts.at(at), "triangular-index", "fourier scheme switch key entry ({i},{j}) of {k}");
                ensure_eq!(loc!(x.get_glev_at_index_mut(i, j, &g, &rx)), ts.at(at), "triangular-index", "mutable fourier scheme switch key entry ({i},{j}) of {k}");
            }
            at += 1;
        }
    }
    let mut x = BootstrapKeyFft::<Z>::new(&d.l, &g, &rx);
    entity!(c, cov, *rng, x, BootstrapKeyFft<Z>, BootstrapKeyFftRef, Z, vw * (k + 1) * d.dim, (d.l.dim, g.dim, rx.count), lg_dims(&d));
    walk2!(c, cov, tiles!(x, BootstrapKeyFftRef, Z, vw * (k + 1)), "fourier bootstrap key", x.rows(&g, &rx), x.rows_mut(&g, &rx));
    let mut x = BlindRotationShiftFft::<Z>::new(&g, &rx);
    entity!(c, cov, *rng, x, BlindRotationShiftFft<Z>, BlindRotationShiftFftRef, Z, vw * (k + 1) * logn, (g.dim, rx.count), glev_dims(&d));
    walk2!(c, cov, tiles!(x, BlindRotationShiftFftRef, Z, vw * (k + 1)), "fourier blind rotation shift", x.rows(&g, &rx), x.rows_mut(&g, &rx));

    // There and back. Words of few bits come back exactly, any others within the rounding bound.
    let small = c.seed % 2 == 0;
    let back = |want: &[Torus<S>], got: &[Torus<S>], name: &str| -> Res {
        let (want, got) = (uraw(want), uraw(got));
        ensure_eq!(got.len(), want.len(), "fourier-length", "{name}");
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            let norm = (n as f64).sqrt() * 2f64.powi(if small { 20 } else { S::bits() as i32 - 1 });
            let bound = if small { 0 } else { fft_err(n, norm, 1.0) as i128 };
            let dist = tdist::<S>(*g, *w).abs();
            ensure!(dist <= bound, "fourier-round-trip", "{name}: word {i} {w:#x} came back as {g:#x} (bound {bound})");
        }
        cov.comparisons(want.len() as u64);
        Ok(())
    };
    let mut fill = |x: &mut [Torus<S>]| {
        for y in x {
            let w = rng.next();
            *y = t::<S>(if small { ((w % (1 << 21)) as i64 - (1 << 20)) as u64 } else { w });
        }
    };
    macro_rules! trip {
        ($own:ident, $rf:ident, $x:expr, $f:expr, |$a:ident, $b:ident| $fft:expr, |$e:ident, $o:ident| $ifft:expr) => {{
            let mut $a = $x;
            fill(raw_mut!($a, $rf, Torus<S>));
            let mut $b = $f;
            $fft;
            let $e = $b;
            let mut $o = $x;
            dirty::<S>(raw_mut!($o, $rf, Torus<S>), c.seed);
            $ifft;
            back(raw!($a, $rf, Torus<S>), raw!($o, $rf, Torus<S>), stringify!($own))?;
        }};
    }
    trip!(Polynomial, PolynomialRef, Polynomial::<Torus<S>>::zero(n), PolynomialFft::<Z>::new(&vec![Z::new(7.0, 3.0); h]), |a, b| a.fft(&mut b), |e, o| e.ifft(&mut o));
    trip!(Glwe, GlweCiphertextRef, GlweCiphertext::<S>::new(&g), GlweCiphertextFft::new(&g), |a, b| a.fft(&mut b, &g), |e, o| e.ifft(&mut o, &g));
    trip!(Glev, GlevCiphertextRef, GlevCiphertext::<S>::new(&g, &rx), v.clone(), |a, b| a.fft(&mut b, &g), |e, o| e.ifft(&mut o, &g));
    trip!(Ggsw, GgswCiphertextRef, GgswCiphertext::<S>::new(&g, &rx), GgswCiphertextFft::new(&g, &rx), |a, b| a.fft(&mut b, &g, &rx), |e, o| e.ifft(&mut o, &g, &rx));
    trip!(GlweKeyswitchKey, GlweKeyswitchKeyRef, GlweKeyswitchKey::<S>::new(&g, &rx), GlweKeyswitchKeyFft::new(&g, &rx), |a, b| a.fft(&mut b, &g, &rx), |e, o| e.ifft(&mut o, &g, &rx));
    trip!(
        AutomorphismKey,
        AutomorphismKeyRef,
        AutomorphismKey::<S>::new(&g, &rx),
        AutomorphismKeyFft::new(&g, &rx),
        |a, b| a.fft(&mut b, &g, &rx),
        |e, o| for (e, o) in e.keyswitch_keys(&g, &rx).zip(o.keyswitch_keys_mut(&g, &rx)) {
            let mut own = o.to_owned();
            e.ifft(&mut own, &g, &rx);
            o.clone_from_ref(&own);
        }
    );
    trip!(SchemeSwitchKey, SchemeSwitchKeyRef, SchemeSwitchKey::<S>::new(&g, &rx), SchemeSwitchKeyFft::new(&g, &rx), |a, b| a.fft(&mut b, &g, &rx), |e, o| e.ifft(&mut o, &g, &rx));
    trip!(BootstrapKey, BootstrapKeyRef, BootstrapKey::<S>::new(&d.l, &g, &rx), BootstrapKeyFft::new(&d.l, &g, &rx), |a, b| a.fft(&mut b, &d.l, &g, &rx), |e, o| e.ifft(&mut o, &g, &rx));
    trip!(
        BlindRotationShift,
        BlindRotationShiftRef,
        BlindRotationShift::<S>::new(&g, &rx),
        BlindRotationShiftFft::new(&g, &rx),
        |a, b| for (a, b) in a.rows(&g, &rx).zip(b.rows_mut(&g, &rx)) {
            a.fft(b, &g, &rx)
        },
        |e, o| e.ifft(&mut o, &g, &rx)
    );
    cov.label(S::NAME);
    cov.label(if small { "exact" } else { "full-width" });
    cov.nontrivial_if(k > 1 && d.cnt > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct ParamCase {
    dim: u64,
    n: u64,
    k: u64,
    std: u64,
    count: u64,
    log: u64,
}
fn params(c: &ParamCase, cov: &Cover) -> Res {
    macro_rules! rt {
        ($x:expr, $t:ty) => {{
            let x: $t = $x;
            let b = bincode::serialize(&x).or_else(|e| vkit::fail("serialize", format!("{x:?}: {e}")))?;
            let y: $t = bincode::deserialize(&b).or_else(|e| vkit::fail("deserialize", format!("{x:?}: {e}")))?;
            ensure_eq!(format!("{y:?}"), format!("{x:?}"), "params-round-trip", "{}", stringify!($t));
            y
        }};
    }
    let std = f64::from_bits(c.std);
    let std = if std.is_nan() { 0.5 } else { std };
    let l = rt!(lwe_def(c.dim as usize, std), LweDef);
    ensure_eq!((l.dim.0 as u64, l.std.0.to_bits()), (c.dim, std.to_bits()), "params-round-trip", "LweDef");
    let g = rt!(glwe_def(c.n as usize, c.k as usize, std), GlweDef);
    ensure_eq!(
        (g.dim.polynomial_degree.0 as u64, g.dim.size.0 as u64, g.std.0.to_bits()),
        (c.n, c.k, std.to_bits()),
        "params-round-trip",
        "GlweDef"
    );
    ensure_eq!(g.as_lwe_def().dim.0 as u64, c.n.wrapping_mul(c.k), "as-lwe-def", "dimension of {g:?}");
    ensure_eq!(g.as_lwe_def().std.0.to_bits(), std.to_bits(), "as-lwe-def", "deviation of {g:?}");
    let r = rt!(rad(c.log as usize, c.count as usize), RadixDecomposition);
    ensure_eq!((r.count.0 as u64, r.radix_log.0 as u64), (c.count, c.log), "params-round-trip", "RadixDecomposition");
    rt!(PlaintextBits(c.log as u32), PlaintextBits);
    rt!(CarryBits(c.log as u32), CarryBits);
    rt!(PrivateFunctionalKeyswitchLweCount(c.count as usize), PrivateFunctionalKeyswitchLweCount);
    rt!(GlweSize(c.k as usize), GlweSize);
    rt!(PolynomialDegree(c.n as usize), PolynomialDegree);
    rt!(Stddev(std), Stddev);
    let x = rt!(Torus::<u64>::from(c.std), Torus<u64>);
    ensure_eq!(x.inner(), c.std, "params-round-trip", "Torus<u64>");
    let x = rt!(Torus::<u32>::from(c.std as u32), Torus<u32>);
    ensure_eq!(x.inner(), c.std as u32, "params-round-trip", "Torus<u32>");
    cov.nontrivial();
    cov.comparisons(13);
    Ok(())
}

fn t14() -> Check {
    Check {
        id: "T14",
        assumptions: vec!["bincode is the serializer", "Fourier forms: degree 16 and up; words below 2^20 come back exactly, any words within the floating-point bound"],
        subs: vec![
            sub("lwe", 20_000, 400_000, "any dimensions 1..=6, counts 1..=5, list lengths 0..=5, any front/back script, words random; non-trivial: several words and levels",
                view_case(), |c: &ViewCase, cov| if c.wide { lwe_views::<u64>(c, cov) } else { lwe_views::<u32>(c, cov) }),
            sub("glwe", 12_000, 250_000, "N 1..=32, k 1..=4, counts 1..=5, any front/back script; non-trivial: several polynomials and levels",
                view_case(), |c: &ViewCase, cov| if c.wide { glwe_views::<u64>(c, cov) } else { glwe_views::<u32>(c, cov) }),
            sub("keys", 8000, 150_000, "bootstrapping, functional and circuit-bootstrapping keys, sequential, mutable and parallel views; non-trivial: every dimension above one",
                view_case(), |c: &ViewCase, cov| if c.wide { key_views::<u64>(c, cov) } else { key_views::<u32>(c, cov) }),
            sub("fourier", 6000, 100_000, "every Fourier entity, and conversion there and back; non-trivial: several polynomials and levels",
                view_case(), |c: &ViewCase, cov| if c.wide { fourier_views::<u64>(c, cov) } else { fourier_views::<u32>(c, cov) }),
            sub("params", 20_000, 1_000_000, "parameter types and torus words of any value survive serialization",
                (any::<u64>(), any::<u64>(), any::<u64>(), word(), any::<u64>(), any::<u64>())
                    .prop_map(|(dim, n, k, std, count, log)| ParamCase { dim, n, k, std, count, log }), params),
        ],
    }
}

pub fn checks() -> Vec<Check> {
    vec![t14()]
}
