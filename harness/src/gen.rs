//! Generators: signals, stream formats, partitions.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub const STEP: f32 = 1.0 / 32767.0;

/// Deterministic hash used to expand compact descriptions (a pure function of the case).
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F))
        .wrapping_add(c.wrapping_mul(0x1656_67B1_9E37_79F9));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A stretch of `n` blocks. Values are 16-bit units; channel `c` gets its own variant.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    /// v, shifted by 97 units per channel
    Const { v: i16, n: u32 },
    Ramp { from: i16, to: i16, n: u32 },
    /// amp * sin(2 pi t / period + channel)
    Tone { amp: u16, period: u16, n: u32 },
    /// uniform in -amp..=amp
    Noise { amp: u16, seed: u16, n: u32 },
    /// random walk with steps in -amp..=amp
    Walk { amp: u16, seed: u16, n: u32 },
    /// a for `half` blocks, then b for `half` blocks, ...
    Square { a: i16, b: i16, half: u16, n: u32 },
    /// zero with a spike every `gap` blocks
    Spikes { v: i16, gap: u16, n: u32 },
    /// accumulating third-order drift: large residuals of a chosen size
    Resid { e: u16, seed: u16, n: u32 },
    /// interleaved values in 16-bit units (padded to whole blocks)
    Raw(Vec<i16>),
    /// interleaved raw f32 bit patterns (padded to whole blocks)
    Bits(Vec<u32>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Signal {
    pub segs: Vec<Seg>,
    /// 0: values exactly on the 16-bit grid; otherwise seed of a sub-step fraction
    pub frac: u16,
    /// all channels alike
    pub mono: bool,
    /// bit c % 16: channel c is silent throughout
    #[serde(default)]
    pub mute: u16,
}

fn unit(v: i32) -> i32 {
    v.clamp(-32767, 32767)
}

impl Seg {
    fn blocks(&self, ch: usize) -> usize {
        match self {
            Seg::Const { n, .. }
            | Seg::Ramp { n, .. }
            | Seg::Tone { n, .. }
            | Seg::Noise { n, .. }
            | Seg::Walk { n, .. }
            | Seg::Square { n, .. }
            | Seg::Spikes { n, .. }
            | Seg::Resid { n, .. } => *n as usize,
            Seg::Raw(v) => (v.len() + ch - 1) / ch,
            Seg::Bits(v) => (v.len() + ch - 1) / ch,
        }
    }
}

impl Seg {
    /// the number of blocks, where it is a parameter
    pub fn length_mut(&mut self) -> Option<&mut u32> {
        match self {
            Seg::Const { n, .. }
            | Seg::Ramp { n, .. }
            | Seg::Tone { n, .. }
            | Seg::Noise { n, .. }
            | Seg::Walk { n, .. }
            | Seg::Square { n, .. }
            | Seg::Spikes { n, .. }
            | Seg::Resid { n, .. } => Some(n),
            Seg::Raw(_) | Seg::Bits(_) => None,
        }
    }
}

impl Signal {
    pub fn blocks(&self, ch: usize) -> usize {
        self.segs.iter().map(|s| s.blocks(ch)).sum()
    }

    /// Interleaved samples for `ch` channels.
    pub fn expand(&self, ch: usize) -> Vec<f32> {
        let mut out = Vec::with_capacity(self.blocks(ch) * ch);
        for (si, seg) in self.segs.iter().enumerate() {
            let n = seg.blocks(ch);
            let base = out.len();
            match seg {
                Seg::Bits(v) => {
                    out.extend(v.iter().map(|&b| f32::from_bits(b)));
                    out.resize(base + n * ch, 0.0);
                    continue;
                }
                Seg::Raw(v) => {
                    out.extend(v.iter().map(|&x| self.place(x as i32, si, out_index(base))));
                    out.resize(base + n * ch, 0.0);
                    continue;
                }
                _ => {}
            }
            out.resize(base + n * ch, 0.0);
            for c in 0..ch {
                let k = if self.mono { 0 } else { c as i32 };
                let mut acc: i64 = 0;
                let (mut h1, mut h2, mut h3) = (0i64, 0i64, 0i64);
                for t in 0..n {
                    let v = match *seg {
                        Seg::Const { v, .. } => v as i32 + 97 * k,
                        Seg::Ramp { from, to, n } => {
                            let span = (n.max(2) - 1) as i64;
                            from as i32
                                + ((to as i64 - from as i64) * t as i64 / span) as i32
                                + 31 * k
                        }
                        Seg::Tone { amp, period, .. } => {
                            let ph = (t as f64 / period.max(2) as f64 + 0.13 * k as f64)
                                * std::f64::consts::TAU;
                            (amp.min(32767) as f64 * ph.sin()) as i32
                        }
                        Seg::Noise { amp, seed, .. } => {
                            let a = amp.min(32767) as i64;
                            (mix(seed as u64, t as u64, k as u64) % (2 * a as u64 + 1)) as i32
                                - a as i32
                        }
                        Seg::Walk { amp, seed, .. } => {
                            let a = amp.min(32767) as i64;
                            acc += (mix(seed as u64, t as u64, k as u64 + 7) % (2 * a as u64 + 1))
                                as i64
                                - a;
                            acc = acc.clamp(-32767, 32767);
                            acc as i32
                        }
                        Seg::Square { a, b, half, .. } => {
                            let phase = t / (half.max(1) as usize) + k as usize;
                            if phase % 2 == 0 {
                                a as i32
                            } else {
                                b as i32
                            }
                        }
                        Seg::Spikes { v, gap, .. } => {
                            if (t + 1 + k as usize) % (gap.max(1) as usize) == 0 {
                                v as i32
                            } else {
                                0
                            }
                        }
                        Seg::Resid { e, seed, .. } => {
                            // next = quadratic extrapolation +- e, folded into range
                            let m = mix(seed as u64, t as u64, k as u64 + 31);
                            let d = if m & 1 == 0 { e as i64 } else { -(e as i64) };
                            let p = (h3 - 3 * h2 + 3 * h1).clamp(-32767, 32767);
                            let mut x = p + d;
                            if x.abs() > 32767 {
                                x = p - d;
                            }
                            let x = x.clamp(-32767, 32767);
                            h3 = h2;
                            h2 = h1;
                            h1 = x;
                            x as i32
                        }
                        Seg::Raw(_) | Seg::Bits(_) => unreachable!(),
                    };
                    out[base + t * ch + c] = self.place(v, si, base + t * ch + c);
                }
            }
        }
        if self.mute != 0 {
            for (i, x) in out.iter_mut().enumerate() {
                if self.mute >> ((i % ch) % 16) & 1 == 1 {
                    *x = 0.0;
                }
            }
        }
        out
    }

    fn place(&self, v: i32, _si: usize, idx: usize) -> f32 {
        let v = unit(v);
        if self.frac == 0 {
            v as f32 * STEP
        } else {
            // a sub-step fraction away from zero, still within [-1, 1]
            let f = (mix(self.frac as u64, idx as u64, 3) % 1024) as f32 / 1024.0;
            let x = if v >= 0 { v as f32 + f } else { v as f32 - f };
            (x * STEP).clamp(-1.0, 1.0)
        }
    }
}

fn out_index(base: usize) -> usize {
    base
}

// ---------------------------------------------------------------- signal strategies

#[derive(Copy, Clone, PartialEq)]
pub enum Domain {
    /// finite, within [-1, 1]
    Unit,
    /// any f32
    Any,
}

pub fn i16_edge() -> BoxedStrategy<i16> {
    prop_oneof![
        4 => any::<i16>(),
        2 => -40i16..=40,
        1 => Just(32767i16),
        1 => Just(-32767i16),
        1 => Just(-32768i16),
        1 => Just(0i16),
        1 => (0u32..15, prop::sample::select(vec![-1i32, 0, 1]), any::<bool>()).prop_map(|(k, d, s)| {
            let v = (1i32 << k) + d;
            (if s { v } else { -v }).clamp(-32768, 32767) as i16
        }),
    ]
    .boxed()
}

fn amp() -> BoxedStrategy<u16> {
    prop_oneof![
        2 => 0u16..=64,
        2 => (0u32..16).prop_map(|k| ((1u32 << k) - 1).min(32767) as u16),
        2 => 0u16..=32767,
        1 => Just(32767u16),
    ]
    .boxed()
}

pub fn seg(domain: Domain, max_n: u32) -> BoxedStrategy<Seg> {
    let m = max_n.max(1);
    let n = move || prop_oneof![2 => 1u32..=m.min(12), 6 => 1u32..=m, 1 => round_size(m)];
    let base = prop_oneof![
        1 => (i16_edge(), n()).prop_map(|(v, n)| Seg::Const { v, n }),
        1 => n().prop_map(|n| Seg::Const { v: 0, n }),
        1 => (i16_edge(), i16_edge(), n()).prop_map(|(from, to, n)| Seg::Ramp { from, to, n }),
        2 => (amp(), 2u16..400, n()).prop_map(|(amp, period, n)| Seg::Tone { amp, period, n }),
        3 => (amp(), any::<u16>(), n()).prop_map(|(amp, seed, n)| Seg::Noise { amp, seed, n }),
        2 => (amp(), any::<u16>(), n()).prop_map(|(amp, seed, n)| Seg::Walk { amp, seed, n }),
        2 => (i16_edge(), i16_edge(), 1u16..9, n()).prop_map(|(a, b, half, n)| Seg::Square { a, b, half, n }),
        1 => (i16_edge(), 1u16..40, n()).prop_map(|(v, gap, n)| Seg::Spikes { v, gap, n }),
        2 => (amp(), any::<u16>(), n()).prop_map(|(e, seed, n)| Seg::Resid { e, seed, n }),
        3 => prop::collection::vec(i16_edge(), 1..=(m.min(60) as usize)).prop_map(Seg::Raw),
    ];
    match domain {
        Domain::Unit => base.boxed(),
        Domain::Any => prop_oneof![
            9 => base,
            1 => prop::collection::vec(f32_bits(), 1..=(m.min(40) as usize)).prop_map(Seg::Bits),
        ]
        .boxed(),
    }
}

/// f32 bit patterns with the interesting ones favoured
pub fn f32_bits() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => any::<u32>(),
        3 => (-2.0f32..2.0).prop_map(f32::to_bits),
        1 => prop::sample::select(vec![
            f32::NAN.to_bits(), f32::INFINITY.to_bits(), f32::NEG_INFINITY.to_bits(),
            0x8000_0000u32, 1, 0x8000_0001, f32::MAX.to_bits(), f32::MIN.to_bits(),
            1.0f32.to_bits(), (-1.0f32).to_bits(), 1.0000001f32.to_bits(), 0.99999994f32.to_bits(),
        ]),
    ]
    .boxed()
}

/// A signal of at most about `max_blocks` blocks.
pub fn signal(domain: Domain, max_blocks: u32) -> BoxedStrategy<Signal> {
    let per = max_blocks.max(1);
    (
        prop_oneof![
            3 => prop::collection::vec(seg(domain, (per / 4).max(1)), 1..=4),
            2 => prop::collection::vec(seg(domain, per), 1..=1),
            1 => prop::collection::vec(seg(domain, 6), 0..=6),
        ],
        prop_oneof![1 => Just(0u16), 1 => 1u16..=u16::MAX],
        prop::bool::weighted(0.15),
        prop_oneof![6 => Just(0u16), 1 => any::<u16>()],
    )
        .prop_map(|(segs, frac, mono, mute)| Signal { segs, frac, mono, mute })
        .boxed()
}

// ---------------------------------------------------------------- format and partition

pub fn channels() -> BoxedStrategy<u32> {
    prop_oneof![
        5 => Just(1u32),
        5 => Just(2u32),
        4 => 3u32..=8,
        1 => 9u32..=40,
    ]
    .boxed()
}

pub fn rate() -> BoxedStrategy<u32> {
    prop_oneof![
        50 => prop::sample::select(vec![8000u32, 11025, 16000, 22050, 22257, 44100, 48000, 96000, 192000]),
        20 => 1u32..=384_000,
        10 => prop::sample::select(vec![1u32, 999, 1000, 1001, 384_000]),
        2 => prop::sample::select(vec![65_535u32, 65_536, 1 << 24, (1 << 24) + 1, i32::MAX as u32, 1 << 31, 3_000_000_007, u32::MAX - 1, u32::MAX]),
        1 => any::<u32>().prop_map(|r| r.max(1)),
    ]
    .boxed()
}

/// A power of two, a multiple of one, or a neighbour of these, at most `max`.
pub fn round_size(max: u32) -> BoxedStrategy<u32> {
    let top = 32 - max.max(16).leading_zeros();
    (4..top, 1u32..=5, prop::sample::select(vec![-1i64, 0, 0, 0, 1]))
        .prop_map(move |(k, m, d)| {
            let unit = 1i64 << k;
            let m = if m as i64 * unit > max as i64 { 1 } else { m as i64 };
            ((m * unit + d).max(1) as u32).min(max.max(1))
        })
        .boxed()
}

/// How many blocks each encode call gets, used cyclically until the stream is consumed.
pub type Cuts = Vec<u32>;

pub fn cuts() -> BoxedStrategy<Cuts> {
    prop_oneof![
        1 => Just(vec![u32::MAX]),
        3 => (1u32..=9).prop_map(|n| vec![n]),
        4 => (1u32..=40).prop_map(|n| vec![n]),
        2 => (1u32..=150).prop_map(|n| vec![n]),
        1 => (1u32..=1100).prop_map(|n| vec![n]),
        5 => prop::collection::vec(prop_oneof![3 => 0u32..=5, 3 => 0u32..=40, 1 => 0u32..=600], 1..=7),
        1 => Just(vec![512]),
        1 => Just(vec![1024]),
        1 => round_size(70_000).prop_map(|n| vec![n]),
        1 => (round_size(3000), 0u32..=600).prop_map(|(a, b)| vec![a, b]),
    ]
    .prop_map(|mut v| {
        if v.iter().all(|&x| x == 0) {
            v.push(1)
        }
        v
    })
    .boxed()
}

/// Splits `total` blocks according to `cuts`; zero-length pieces are kept.
pub fn pieces(total: usize, cuts: &[u32]) -> Vec<usize> {
    let mut out = Vec::new();
    let mut left = total;
    if cuts.iter().all(|&c| c == 0) {
        return vec![total];
    }
    while left > 0 {
        for &c in cuts {
            let n = (c as usize).min(left);
            out.push(n);
            left -= n;
            if left == 0 {
                break;
            }
        }
    }
    out
}

/// Rates at which milliseconds are fine compared with blocks, so that seeks hit many blocks.
pub fn slow_rate() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => prop::sample::select(vec![1000u32, 2000, 3000, 500, 8000, 1001, 999]),
        2 => 1u32..=3000,
        1 => 3000u32..=30_000,
    ]
    .boxed()
}

/// How many operations a long history has: enough for a counter of 8 bits to overflow.
pub const LONG: std::ops::RangeInclusive<usize> = 258..=600;

pub fn level() -> BoxedStrategy<u32> {
    (0u32..=10).boxed()
}

pub fn same_f32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a == 0.0 && b == 0.0)
}

/// First index at which two sample sequences differ (or their lengths do).
pub fn first_diff(a: &[f32], b: &[f32]) -> Option<String> {
    for i in 0..a.len().min(b.len()) {
        if !same_f32(a[i], b[i]) {
            return Some(format!("sample {}: {} vs {}", i, a[i], b[i]));
        }
    }
    (a.len() != b.len()).then(|| format!("length {} vs {}", a.len(), b.len()))
}
