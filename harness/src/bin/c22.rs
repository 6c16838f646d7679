//! C22: the signal maths helpers against their definitions.
use adhoc_audio::verif_hooks::{
    compute_mse, convolve_1d, convolve_1d_branchless, gaussian_filter, scale_signal,
    FixedParabola, PseudoRandom,
};
use pbt::engine::{run, Obs, Prop, Tier};
use pbt::ensure;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Samples: 16-bit integers or fractions v / 2^shift (both exact in f32).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Samples {
    v: Vec<i32>,
    shift: u8,
}

impl Samples {
    fn f32s(&self) -> Vec<f32> {
        self.v.iter().map(|x| *x as f32 / (1u64 << self.shift) as f32).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    /// three integer samples, evaluated exactly; evaluated again after changing one of them
    ParabolaInt { f: [i32; 3], change: i32, via_new: bool },
    Parabola { f: [i32; 3], shift: u8, x: i16 },
    Noise { seed: u64, pieces: Vec<(bool, u8)> },
    NoiseStats { seed: u64, triangle: bool },
    Convolve { samples: Samples, kernel: Samples, spare: u8 },
    Scale { samples: Samples, dst_len: u16, spare: u8 },
    Mse { a: Samples, b: Samples },
    /// a walk of `n` samples, resampled, convolved with a short kernel and compared with itself
    Long { n: u32, dst_len: u32, seed: u16, kernel: Samples },
    Gauss { n: u8, sigma: u16, r: u16 },
}

fn check_parabola_int(f: [i32; 3], change: i32, via_new: bool, obs: &mut Obs) -> Result<(), String> {
    let fs = [f[0] as f32, f[1] as f32, f[2] as f32];
    let mut p = if via_new {
        let mut p = FixedParabola::new();
        p.f = fs;
        p
    } else {
        FixedParabola::from_samples(fs)
    };
    for round in 0..2 {
        let g = [p.f[0] as i64, p.f[1] as i64, p.f[2] as i64];
        p.compute_coefs();
        let want = [g[0], g[1], g[2], g[0] - 3 * g[1] + 3 * g[2]];
        for (x, w) in want.iter().enumerate() {
            let got = p.eval(x as f32);
            ensure!(
                got == *w as f32,
                "round {}: through {:?}: value at {} is {} not {}",
                round,
                g,
                x,
                got,
                w
            );
        }
        p.f[2] = change as f32;
    }
    obs.label("parabola: integers");
    obs.nontrivial = f[0] - 2 * f[1] + f[2] != 0;
    Ok(())
}

fn check_parabola(f: [i32; 3], shift: u8, x: i16, obs: &mut Obs) -> Result<(), String> {
    let s = Samples { v: f.to_vec(), shift }.f32s();
    let mut p = FixedParabola::from_samples([s[0], s[1], s[2]]);
    p.compute_coefs();
    let d = [s[0] as f64, s[1] as f64, s[2] as f64];
    let scale = d.iter().fold(0f64, |a, b| a.max(b.abs()));
    for x in [x as f64 / 256.0, 0.0, 1.0, 2.0, 3.0, -1.0, 0.5] {
        // Lagrange form
        let want = d[0] * (x - 1.0) * (x - 2.0) / 2.0 - d[1] * x * (x - 2.0) + d[2] * x * (x - 1.0) / 2.0;
        let got = p.eval(x as f32) as f64;
        let tol = 1e-5 * scale * (1.0 + x.abs() + x * x);
        ensure!(
            (got - want).abs() <= tol,
            "through {:?}: value at {} is {} not {}",
            d,
            x,
            got,
            want
        );
    }
    obs.label("parabola: fractions");
    obs.nontrivial = f[0] - 2 * f[1] + f[2] != 0;
    Ok(())
}

fn check_noise(seed: u64, pieces: &[(bool, u8)], obs: &mut Obs) -> Result<(), String> {
    let total: usize = pieces.iter().map(|p| p.1 as usize).sum();
    // the same sequence drawn twice, once in pieces
    let mut a = PseudoRandom::new(seed);
    let mut b = PseudoRandom::new(seed);
    for (k, (triangle, n)) in pieces.iter().enumerate() {
        let n = *n as usize;
        let xs: Vec<f32> = if *triangle {
            a.triangle().take(n).collect()
        } else {
            a.uniform().take(n).collect()
        };
        let mut ys = Vec::new();
        for _ in 0..n {
            ys.push(if *triangle { b.triangle().next() } else { b.uniform().next() }.ok_or("the noise ends")?);
        }
        ensure!(xs == ys, "piece {} differs when drawn one by one: {:?} and {:?}", k, xs, ys);
        for x in xs {
            if *triangle {
                ensure!(-1.0 < x && x < 1.0, "triangle noise of {}", x);
            } else {
                ensure!((-1.0..1.0).contains(&x), "uniform noise of {}", x);
            }
        }
    }
    obs.label("noise: reproducible and in range");
    obs.nontrivial = total > 3 && pieces.len() > 1;
    Ok(())
}

/// Bounds hold for every seed but those of the generator's one fixed point (computed over its
/// whole cycles: the worst windows of this length stay at less than 80% of each).
const DRAWS: usize = 16384;
const MODULUS: u64 = 507_961;
const FIXED_POINT: u64 = 455_685;

fn check_noise_stats(seed: u64, triangle: bool, obs: &mut Obs) -> Result<(), String> {
    if seed % MODULUS == FIXED_POINT {
        obs.label("noise: degenerate seed, skipped");
        return Ok(());
    }
    let mut r = PseudoRandom::new(seed);
    let xs: Vec<f64> = if triangle {
        r.triangle().take(DRAWS).map(|x| x as f64).collect()
    } else {
        r.uniform().take(DRAWS).map(|x| x as f64).collect()
    };
    let n = DRAWS as f64;
    let mean = xs.iter().sum::<f64>() / n;
    let square = xs.iter().map(|x| x * x).sum::<f64>() / n;
    let share = |f: &dyn Fn(f64) -> bool| xs.iter().filter(|x| f(**x)).count() as f64 / n;
    let (mid, low, high) = (share(&|x| x.abs() < 0.5), share(&|x| x < -0.5), share(&|x| x > 0.5));
    if triangle {
        ensure!(mean.abs() < 0.015, "triangle noise of seed {} has mean {}", seed, mean);
        ensure!((square - 1.0 / 6.0).abs() < 0.008, "triangle noise of seed {} has variance {}", seed, square);
        ensure!(
            (mid - 0.75).abs() < 0.02 && (low - 0.125).abs() < 0.015 && (high - 0.125).abs() < 0.015,
            "triangle noise of seed {}: shares {} {} {}",
            seed,
            low,
            mid,
            high
        );
    } else {
        ensure!(mean.abs() < 0.02, "uniform noise of seed {} has mean {}", seed, mean);
        ensure!((square - 1.0 / 3.0).abs() < 0.012, "uniform noise of seed {} has variance {}", seed, square);
    }
    obs.label("noise: distribution");
    obs.nontrivial = true;
    Ok(())
}

fn check_convolve(s: &[f32], kernel: &Samples, spare: u8, obs: &mut Obs) -> Result<(), String> {
    let k = kernel.f32s();
    let half = (k.len() / 2) as i64;
    let mut want = vec![0f64; s.len()];
    let mut weight = vec![0f64; s.len()];
    for i in 0..s.len() {
        for (j, kj) in k.iter().enumerate() {
            let at = i as i64 + j as i64 - half;
            if (0..s.len() as i64).contains(&at) {
                let t = s[at as usize] as f64 * *kj as f64;
                want[i] += t;
                weight[i] += t.abs();
            }
        }
    }
    let len = s.len() + spare as usize;
    let mut plain = vec![7.5f32; len];
    let mut branchless = vec![7.5f32; len];
    convolve_1d(s, &k, &mut plain);
    convolve_1d_branchless(s, &k, &mut branchless);
    for (name, out) in [("convolve_1d", &plain), ("convolve_1d_branchless", &branchless)] {
        for i in 0..s.len() {
            let tol = weight[i] * 1e-6 * (k.len() + 1) as f64;
            ensure!(
                (out[i] as f64 - want[i]).abs() <= tol,
                "{}: sample {} is {} not {}",
                name,
                i,
                out[i],
                want[i]
            );
        }
        ensure!(
            out[s.len()..].iter().all(|x| *x == 7.5),
            "{} writes beyond the samples",
            name
        );
    }
    obs.label("convolution");
    obs.label_if(k.len() > s.len(), "convolution: kernel longer than the signal");
    obs.label_if(k.len() % 2 == 0, "convolution: even kernel");
    obs.nontrivial = s.len() > 1 && k.len() > 1;
    Ok(())
}

fn check_scale(s: &[f32], dst_len: usize, spare: u8, obs: &mut Obs) -> Result<(), String> {
    let n = s.len();
    let mut out = vec![7.5f32; dst_len + spare as usize];
    let got = scale_signal(s, dst_len, &mut out).to_vec();
    ensure!(got.len() == dst_len, "{} samples instead of {}", got.len(), dst_len);
    ensure!(out[..dst_len] == got[..], "the slice returned is not the start of the buffer");
    ensure!(out[dst_len..].iter().all(|x| *x == 7.5), "samples beyond the destination are changed");
    ensure!(got[0] == s[0], "starts with {} instead of {}", got[0], s[0]);
    let scale = s.iter().fold(0f64, |a, b| a.max(b.abs() as f64));
    let at = |p: f64| -> f64 {
        let p = p.clamp(0.0, (n - 1) as f64);
        let w = (p.floor() as usize).min(n - 2);
        let t = p - w as f64;
        s[w] as f64 * (1.0 - t) + s[w + 1] as f64 * t
    };
    for (k, g) in got.iter().enumerate() {
        let p = (k * (n - 1)) as f64 / (dst_len - 1) as f64;
        // the position is computed in f32
        let d = (p + 1.0) * 4e-7;
        let (mut lo, mut hi) = (at(p).min(at(p - d)).min(at(p + d)), at(p).max(at(p - d)).max(at(p + d)));
        let knot = p.round();
        if (knot - p).abs() <= d {
            lo = lo.min(at(knot));
            hi = hi.max(at(knot));
        }
        let tol = scale * 1e-6;
        ensure!(
            (*g as f64) >= lo - tol && (*g as f64) <= hi + tol,
            "{} to {} samples: sample {} is {} instead of {}",
            n,
            dst_len,
            k,
            g,
            at(p)
        );
    }
    obs.label("resampling");
    obs.label_if(dst_len > n, "resampling: up");
    obs.label_if(dst_len < n, "resampling: down");
    obs.nontrivial = n > 2 && dst_len > 2 && dst_len != n;
    Ok(())
}

fn check_mse(a: &Samples, b: &Samples, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (a.f32s(), b.f32s());
    let n = a.len().min(b.len());
    let (ab, ba) = (compute_mse(&a, &b) as f64, compute_mse(&b, &a) as f64);
    let want = (0..n).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>() / n as f64;
    ensure!((ab - want).abs() <= want * 1e-4, "the error is {} not {}", ab, want);
    ensure!((ab - ba).abs() <= want * 1e-4, "not symmetric: {} and {}", ab, ba);
    ensure!((ab == 0.0) == (a[..n] == b[..n]), "{} for {:?} and {:?}", ab, &a[..n], &b[..n]);
    ensure!(compute_mse(&a, &a) == 0.0, "a signal differs from itself");
    obs.label("mean squared error");
    obs.label_if(a.len() != b.len(), "mean squared error: different lengths");
    obs.nontrivial = n > 1 && want > 0.0;
    Ok(())
}

fn check_long(n: usize, dst_len: usize, seed: u16, kernel: &Samples, obs: &mut Obs) -> Result<(), String> {
    let mut v = 0i64;
    let walk: Vec<f32> = (0..n as u64)
        .map(|t| {
            v = (v + (pbt::gen::mix(seed as u64, t, 5) % 201) as i64 - 100).clamp(-32767, 32767);
            v as f32 / 32768.0
        })
        .collect();
    check_scale(&walk, dst_len, 1, obs)?;
    check_convolve(&walk, kernel, 1, obs)?;
    let mut other = walk.clone();
    ensure!(compute_mse(&walk, &other) == 0.0, "a long signal differs from itself");
    other[n - 1] += 0.5;
    let got = compute_mse(&walk, &other) as f64;
    let want = 0.25 / n as f64;
    ensure!((got - want).abs() <= want * 1e-3, "the error of one sample in {} is {} not {}", n, got, want);
    obs.label("long signal");
    obs.nontrivial = true;
    Ok(())
}

fn gauss(n: u8, sigma: f32, r: f32) -> Vec<f32> {
    match n {
        0 => gaussian_filter::<2>(sigma, r).to_vec(),
        1 => gaussian_filter::<3>(sigma, r).to_vec(),
        2 => gaussian_filter::<4>(sigma, r).to_vec(),
        3 => gaussian_filter::<5>(sigma, r).to_vec(),
        4 => gaussian_filter::<9>(sigma, r).to_vec(),
        5 => gaussian_filter::<16>(sigma, r).to_vec(),
        _ => gaussian_filter::<33>(sigma, r).to_vec(),
    }
}

fn check_gauss(n: u8, sigma: f32, r: f32, obs: &mut Obs) -> Result<(), String> {
    let g = gauss(n, sigma, r);
    let len = g.len();
    for k in 0..len {
        let x = (k as f64 / (len - 1) as f64 * 2.0 - 1.0) * r as f64;
        let s = sigma as f64;
        let want = (-0.5 * (x / s).powi(2)).exp() / (s * (2.0 * std::f64::consts::PI).sqrt());
        ensure!(
            (g[k] as f64 - want).abs() <= want * 2e-3 + 1e-30,
            "kernel of {} (sigma {}, radius {}): weight {} is {} not {}",
            len,
            sigma,
            r,
            k,
            g[k],
            want
        );
    }
    obs.label("gaussian kernel");
    obs.nontrivial = len > 2;
    Ok(())
}

pub struct C22;

fn samples(len: std::ops::Range<usize>) -> BoxedStrategy<Samples> {
    (
        prop_oneof![
            4 => proptest::collection::vec(
                prop_oneof![3 => -32768i32..32768, 2 => -3i32..4, 1 => Just(0), 1 => -1_000_000i32..1_000_000], len.clone()),
            1 => (any::<i16>(), len.clone()).prop_map(|(v, n)| vec![v as i32; n]),
            1 => (-300i32..300, len).prop_map(|(d, n)| (0..n as i32).map(|k| k * d).collect()),
        ],
        prop_oneof![Just(0u8), Just(15u8), Just(20u8), 0u8..25],
    )
        .prop_map(|(v, shift)| Samples { v, shift })
        .boxed()
}

fn any_seed() -> BoxedStrategy<u64> {
    prop_oneof![0u64..4, 0..MODULUS, 0u64..(1 << 43), Just(123u64), Just(MODULUS - 1), Just(MODULUS)].boxed()
}

fn triple() -> BoxedStrategy<[i32; 3]> {
    let v = || {
        prop_oneof![
            3 => -32768i32..32768,
            1 => -4i32..5,
            1 => Just(32767i32),
            1 => Just(-32768i32),
            1 => -131072i32..131072
        ]
    };
    (v(), v(), v()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}

impl Prop for C22 {
    const ID: &'static str = "C22";
    type Case = Case;
    const RULE: &'static str = "random sample triples (integers: exact; fractions: f64 tolerance), noise seeds and draw patterns, signals (up to 200000 samples) and kernels, resampling lengths; non-trivial: the parabola is curved, noise is drawn in several pieces or measured over 16384 draws, signals and kernels of more than one value, resampling between different lengths above two, unequal signals";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "noise seeds are below 2^43 (no overflow in the first step) and, for the distribution, not the generator's fixed point (one residue class modulo 507961)",
        "resampling lengths are at least two, signals are finite",
    ];
    fn cases(tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 800_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let signal = prop_oneof![3 => samples(2..12), 2 => samples(2..100), 1 => samples(100..600)].boxed();
        prop_oneof![
            60 => (triple(), -32768i32..32768, any::<bool>())
                .prop_map(|(f, change, via_new)| Case::ParabolaInt { f, change, via_new }),
            40 => (triple(), 0u8..20, any::<i16>()).prop_map(|(f, shift, x)| Case::Parabola { f, shift, x }),
            40 => (any_seed(), proptest::collection::vec((any::<bool>(), 0u8..60), 1..8))
                .prop_map(|(seed, pieces)| Case::Noise { seed, pieces }),
            20 => (any_seed(), any::<bool>()).prop_map(|(seed, triangle)| Case::NoiseStats { seed, triangle }),
            60 => (prop_oneof![samples(0..10), samples(1..60)], prop_oneof![samples(0..8), samples(1..40)], 0u8..4)
                .prop_map(|(samples, kernel, spare)| Case::Convolve { samples, kernel, spare }),
            60 => (signal, prop_oneof![2u16..20, 2u16..300, 2u16..3000], 0u8..4)
                .prop_map(|(samples, dst_len, spare)| Case::Scale { samples, dst_len, spare }),
            40 => (samples(1..40), samples(1..40)).prop_map(|(a, b)| Case::Mse { a, b }),
            20 => samples(1..40).prop_map(|a| Case::Mse { b: a.clone(), a }),
            20 => (0u8..7, 20u16..1000, 1u16..400).prop_map(|(n, sigma, r)| Case::Gauss { n, sigma, r }),
            1 => (prop_oneof![600u32..10_000, 60_000u32..70_000, 2u32..200_000], prop_oneof![2u32..10_000, 60_000u32..70_000, 2u32..200_000], any::<u16>(), samples(1..6))
                .prop_map(|(n, dst_len, seed, kernel)| Case::Long { n, dst_len, seed, kernel }),
        ]
        .boxed()
    }
    fn check(case: &Case, obs: &mut Obs) -> Result<(), String> {
        match case {
            Case::ParabolaInt { f, change, via_new } => check_parabola_int(*f, *change, *via_new, obs),
            Case::Parabola { f, shift, x } => check_parabola(*f, *shift, *x, obs),
            Case::Noise { seed, pieces } => check_noise(*seed, pieces, obs),
            Case::NoiseStats { seed, triangle } => check_noise_stats(*seed, *triangle, obs),
            Case::Convolve { samples, kernel, spare } => check_convolve(&samples.f32s(), kernel, *spare, obs),
            Case::Scale { samples, dst_len, spare } => check_scale(&samples.f32s(), *dst_len as usize, *spare, obs),
            Case::Long { n, dst_len, seed, kernel } => check_long(*n as usize, *dst_len as usize, *seed, kernel, obs),
            Case::Mse { a, b } => check_mse(a, b, obs),
            Case::Gauss { n, sigma, r } => check_gauss(*n, *sigma as f32 / 100.0, *r as f32 / 100.0, obs),
        }
    }
}

#[allow(dead_code)]
fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::<C22>(&argv[1.min(argv.len())..]));
}
