//! C22: PCG32 against an independent implementation, the draws built on it, and their distributions.
use checks::util::*;
use multicalc::random::{Pcg32, RandomScalar, RandomSource};
use vk::*;

/// Reference generator in 128-bit arithmetic, after the published algorithm.
#[derive(Clone)]
struct Ref { s: u128, inc: u128 }
const M64: u128 = (1 << 64) - 1;
impl Ref {
    fn new(seed: u64, stream: u64) -> Self { let mut r = Ref { s: 0, inc: (((stream as u128) << 1) | 1) & M64 }; r.next(); r.s = (r.s + seed as u128) & M64; r.next(); r }
    fn next(&mut self) -> u32 { let o = self.s; self.s = (o * 6364136223846793005 + self.inc) & M64; let x = (((o >> 18) ^ o) >> 27) & 0xffff_ffff; let r = (o >> 59) as u32; (((x >> r) | (x << ((32 - r) & 31))) & 0xffff_ffff) as u32 }
    fn unit<T: Fl>(&mut self) -> f64 { if T::IS32 { (self.next() >> 8) as f64 / 16777216.0 } else { let h = self.next() as u64; let l = self.next() as u64; (((h << 32) | l) >> 11) as f64 / 9007199254740992.0 } }
    /// The two normals of the polar method, in double precision.
    fn pair<T: Fl>(&mut self) -> (f64, f64, f64, usize) { let mut n = 0; loop { n += 1; let x = 2.0 * self.unit::<T>() - 1.0; let y = 2.0 * self.unit::<T>() - 1.0; let r = x * x + y * y; let (rr, edge) = if T::IS32 { ((x * x) as f32 as f64 + (y * y) as f32 as f64, 3e-7) } else { (r, 4e-16) }; let _ = rr; if (r - 1.0).abs() < edge { return (f64::NAN, f64::NAN, r, n); } if r > 0.0 && r < 1.0 { let k = (-2.0 * r.ln() / r).sqrt(); return (x * k, y * k, r, n); } } }
}
const DEFAULT: u64 = 0xda3e_39cb_94b9_5bdb;
fn seed(g: &mut G) -> u64 { match g.below(4) { 0 => g.pick(&[0, 1, 2, 42, u64::MAX, 1 << 63, 0x8000_0000, 0xffff_ffff]), 1 => g.below(1000) as u64, _ => g.raw(0) } }

/// A mixed sequence of calls against the reference.
fn sequence<T: Fl + RandomScalar>(g: &mut G) -> R {
    let (s, t) = (seed(g), seed(g)); let dft = g.chance(1, 3); g.note("seed,stream,default", &(s, t, dft)); let mut p: Pcg32<T> = if dft { Pcg32::new(s) } else { Pcg32::with_stream(s, t) }; let mut r = if dft { Ref::new(s, DEFAULT) } else { Ref::new(s, t) }; let mut twin = p.clone(); ensure!(twin == p); let mut spare: Option<(f64, f64)> = None; let mut normals = 0; let n = 1 + g.below(60);
    for i in 0..n { match g.below(5) {
        0 => { let (a, b) = (p.next_u32(), r.next()); ensure!(a == b, "word {i}: {a:#x}, reference {b:#x}"); let _ = twin.next_u32(); }
        1 => { let a = p.next_u64(); let b = ((r.next() as u64) << 32) | r.next() as u64; ensure!(a == b, "double word {i}: {a:#x}, reference {b:#x}"); let _ = twin.next_u64(); }
        2 => { let a = p.next_unit(); let b = r.unit::<T>(); ensure!(a.g() == b, "unit {i}: {} reference {b}", a.g()); ensure!(a >= T::ZERO && a < T::ONE); let _ = twin.next_unit(); }
        3 => { let a = p.standard_normal().g(); normals += 1; let (w, tol) = match spare.take() { Some(x) => { g.label("second of a pair"); x } None => { let (x, y, q, m) = r.pair::<T>(); if x.is_nan() { discard!() } g.label_if(m > 1, "redraw"); let tol = T::EPS * (40.0 + 40.0 / (1.0 - q).max(1e-12)); spare = Some((y, tol)); (x, tol) } }; close!(g, a, w, tol * (1.0 + w.abs()), "normal {i}"); let _ = twin.standard_normal(); }
        _ => { let c = p.clone(); ensure!(c == p); p = c; }
    } ensure!(twin == p, "the same calls left two generators in different states"); }
    // the cache stays where the trait says it is
    match (p.get_cache(), spare) { (Some(a), Some((w, tol))) => close!(g, a.g(), w, tol * (1.0 + w.abs()), "cached normal"), (None, None) => (), (a, b) => bad!("cache {a:?}, expected {b:?}") } ensure!(p.get_cache().is_none()); let v = T::c(g.f(-3.0, 3.0)); p.set_cache(v); ensure!(p.standard_normal() == v && p.get_cache().is_none()); g.nontrivial_if(n > 1); g.label_if(normals > 1, "several normals"); Ok(())
}
/// A source that plays back chosen words.
struct Script<T> { words: Vec<u32>, at: usize, cache: Option<T>, keep: bool }
impl<T: RandomScalar> RandomSource<T> for Script<T> { fn next_u32(&mut self) -> u32 { let w = self.words[self.at % self.words.len()]; self.at += 1; w } fn get_cache(&mut self) -> Option<T> { self.cache.take() } fn set_cache(&mut self, v: T) { if self.keep { self.cache = Some(v); } } }
fn hostile_words<T: Fl + RandomScalar>(g: &mut G) -> R {
    let n = 1 + g.below(12); let w: Vec<u32> = (0..n).map(|_| match g.below(4) { 0 => g.pick(&[0, 1, u32::MAX, u32::MAX - 1, 0xff, 0x100, 0x7ff, 0x800, 1 << 31, (1 << 31) - 1, 0xffff_ff00, 0xffff_f800]), _ => g.raw(0) as u32 }).collect(); g.note("words", &w); let mut s = Script::<T> { words: w.clone(), at: 0, cache: None, keep: true };
    for _ in 0..n { let at = s.at; let u = s.next_unit(); ensure!(u >= T::ZERO && u < T::ONE, "unit draw {} out of range", u.g()); let (h, l) = (w[at % n] as u64, w[(at + 1) % n] as u64); let want = if T::IS32 { (h >> 8) as f64 / 16777216.0 } else { (((h << 32) | l) >> 11) as f64 / 9007199254740992.0 }; ensure!(u.g() == want && s.at == at + if T::IS32 { 1 } else { 2 }, "unit from words"); ensure!(T::next_unit(&mut Script::<T> { words: w.clone(), at, cache: None, keep: true }) == u); } let at = s.at; ensure!(s.next_u64() == ((w[at % n] as u64) << 32 | w[(at + 1) % n] as u64));
    // polar draw from chosen words ending in an acceptable pair
    let per = if T::IS32 { 1 } else { 2 }; let mut tape: Vec<u32> = vec![]; let rounds = g.below(3); for _ in 0..rounds { for _ in 0..2 { if g.bool() { tape.push(g.pick(&[0, u32::MAX])); } else { tape.push(if g.bool() { 0 } else { u32::MAX }); } for _ in 1..per { tape.push(g.raw(0) as u32); } } } if g.chance(1, 4) { for _ in 0..2 { tape.push(1 << 31); for _ in 1..per { tape.push(0); } } g.label("zero radius"); } let (a, b) = (g.f(0.2, 0.8), g.f(0.2, 0.8)); for z in [a, b] { tape.push((z * 4294967296.0) as u32); for _ in 1..per { tape.push(g.raw(0) as u32); } } let len = tape.len(); let last = &tape[len - 2 * per..]; let un = |c: &[u32]| if T::IS32 { (c[0] >> 8) as f64 / 16777216.0 } else { ((((c[0] as u64) << 32) | c[1] as u64) >> 11) as f64 / 9007199254740992.0 }; let (x, y) = (2.0 * un(&last[..per]) - 1.0, 2.0 * un(&last[per..]) - 1.0); let r = x * x + y * y; if r < 1e-6 { discard!() } let k = (-2.0 * r.ln() / r).sqrt(); let tol = T::EPS * 200.0;
    for keep in [true, false] { let mut s = Script::<T> { words: tape.clone(), at: 0, cache: None, keep }; let z = s.standard_normal(); ensure!(s.at == len, "consumed {} of {len} words", s.at); close!(g, z.g(), x * k, tol * (1.0 + k), "first of the pair"); if keep { let z = s.standard_normal(); ensure!(s.at == len, "the second of the pair drew more words"); close!(g, z.g(), y * k, tol * (1.0 + k), "second of the pair"); } let _ = s.standard_normal(); ensure!(s.at == 2 * len, "a spent pair is not reused"); } g.nontrivial(); Ok(())
}
/// Long runs: moments, bins, tails, serial correlation, and independence between streams and nearby seeds.
fn distribution<T: Fl + RandomScalar>(g: &mut G) -> R {
    let (s, t) = (seed(g), seed(g)); g.note("seed,stream", &(s, t)); const N: usize = 20000; let mut p: Pcg32<T> = Pcg32::with_stream(s, t); let u: Vec<f64> = (0..N).map(|_| p.next_unit().g()).collect(); let nf = N as f64; let mean = u.iter().sum::<f64>() / nf; close!(g, mean, 0.5, 7.0 * (1.0f64 / 12.0 / nf).sqrt(), "uniform mean"); let var = u.iter().map(|x| (x - 0.5).powi(2)).sum::<f64>() / nf; close!(g, var, 1.0 / 12.0, 7.0 * (1.0f64 / 180.0 / nf).sqrt(), "uniform variance"); let mut bins = [0f64; 64]; for x in &u { bins[(x * 64.0) as usize] += 1.0; } let chi: f64 = bins.iter().map(|c| (c - nf / 64.0).powi(2) / (nf / 64.0)).sum(); ensure!(chi < 63.0 + 9.0 * 126f64.sqrt(), "uniform bins: chi-square {chi}"); let lag = 1 + g.below(5); let cor = (0..N - lag).map(|i| (u[i] - 0.5) * (u[i + lag] - 0.5)).sum::<f64>() * 12.0 / nf; close!(g, cor, 0.0, 7.0 / nf.sqrt(), "serial correlation at lag {lag}");
    let z: Vec<f64> = (0..N).map(|_| p.standard_normal().g()).collect(); let mo = |k: i32| z.iter().map(|x| x.powi(k)).sum::<f64>() / nf; close!(g, mo(1), 0.0, 7.0 / nf.sqrt(), "normal mean"); close!(g, mo(2), 1.0, 7.0 * (2.0 / nf).sqrt(), "normal variance"); close!(g, mo(3), 0.0, 7.0 * (15.0 / nf).sqrt(), "normal skewness"); close!(g, mo(4), 3.0, 8.0 * (96.0 / nf).sqrt(), "normal kurtosis"); let mut q = [0f64; 8]; let cuts = [-1.1503493803760079, -0.6744897501960817, -0.3186393639643751, 0.0, 0.3186393639643751, 0.6744897501960817, 1.1503493803760079]; for x in &z { q[cuts.iter().filter(|c| *x > **c).count()] += 1.0; } let chi: f64 = q.iter().map(|c| (c - nf / 8.0).powi(2) / (nf / 8.0)).sum(); ensure!(chi < 7.0 + 9.0 * 14f64.sqrt() + 20.0, "normal octiles: chi-square {chi}"); let pair = (0..N / 2).map(|i| z[2 * i] * z[2 * i + 1]).sum::<f64>() / (nf / 2.0); close!(g, pair, 0.0, 7.0 / (nf / 2.0).sqrt(), "the two of a pair are uncorrelated"); let sq = (0..N / 2).map(|i| (z[2 * i].powi(2) - 1.0) * (z[2 * i + 1].powi(2) - 1.0)).sum::<f64>() / (nf / 2.0); close!(g, sq, 0.0, 16.0 / (nf / 2.0).sqrt(), "squares of a pair are uncorrelated");
    let m = 4000; let other: (u64, u64) = match g.below(3) { 0 => (s.wrapping_add(1), t), 1 => (s, t ^ 1), _ => (s ^ (1 << g.below(64)), t) }; let (mut a, mut b): (Pcg32<T>, Pcg32<T>) = (Pcg32::with_stream(s, t), Pcg32::with_stream(other.0, other.1)); let (mut same, mut cor) = (0, 0.0); for _ in 0..m { let (x, y) = (a.next_u32(), b.next_u32()); same += (x == y) as usize; cor += (x as f64 / 4294967296.0 - 0.5) * (y as f64 / 4294967296.0 - 0.5) * 12.0; } ensure!(same < 8, "{same} equal words from different generators"); close!(g, cor / m as f64, 0.0, 8.0 / (m as f64).sqrt(), "correlation between generators"); g.nontrivial(); Ok(())
}
fn published(_: &mut G) -> R { let mut p: Pcg32<f64> = Pcg32::with_stream(42, 54); let got: Vec<u32> = (0..6).map(|_| p.next_u32()).collect(); ensure!(got == [0xa15c02b7, 0x7b47f409, 0xba1d3330, 0x83d2f293, 0xbfa4784b, 0xcbed606e], "the published demonstration sequence: {got:x?}"); Ok(()) }
fn main() {
    run("C22", &["distribution tests run on 20000 draws at seven or more standard deviations, from explored seeds", "normals whose radius falls within rounding of one are not compared word for word"], &[
        law!("published", 2, published, "every case"), law!("sequence", 60000, sequence::<f64>, "more than one call"), law!("sequence_f32", 30000, sequence::<f32>, "more than one call"), law!("hostile_words", 60000, hostile_words::<f64>, "every case"), law!("hostile_words_f32", 30000, hostile_words::<f32>, "every case"), law!("distribution", 400, distribution::<f64>, "every case"), law!("distribution_f32", 200, distribution::<f32>, "every case"),
    ]);
}
