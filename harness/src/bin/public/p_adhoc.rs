//! C01-C09 and C14: the compressed codec.
use crate::codecs::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use pbt::engine::{Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use pbt::refcodec::RefFile;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub fn scale_cases(tier: Tier, quick: u32) -> u32 {
    if tier == Tier::Quick {
        quick
    } else {
        quick * 25
    }
}

/// How playback from the start is reached.
#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum From0 {
    Init,
    Seek,
    Load,
}

fn from0() -> BoxedStrategy<From0> {
    prop_oneof![Just(From0::Init), Just(From0::Seek), Just(From0::Load)].boxed()
}

fn to_start(mut c: AdhocCodec, how: From0) -> Result<AdhocCodec, String> {
    match how {
        From0::Init => c.init(),
        From0::Seek => c.seek(SeekFrom::Start(0)),
        From0::Load => c = load_adhoc(&save_adhoc(&c)?)?,
    }
    Ok(c)
}

fn play_all(c: &mut AdhocCodec, expect: usize, buf: usize) -> Result<Vec<f32>, String> {
    decode_rest(c, buf, expect * 2 + 100_000)
}

pub fn dir_stream(rate: u32, ch: u32, level: u32, segs: Vec<Seg>, cuts: Vec<u32>) -> Stream {
    Stream {
        rate,
        ch,
        level,
        sig: Signal { segs, frac: 0, mono: false, mute: 0 },
        cuts,
    }
}

/// Shapes every stream property should see: tiny streams, frame-size limits, many frames,
/// full-scale jumps, wide layouts.
pub fn directed_streams(level: u32) -> Vec<Stream> {
    let mut v = Vec::new();
    for ch in [1u32, 2, 3] {
        for n in 0u32..=6 {
            for cut in [1u32, 2, u32::MAX] {
                v.push(dir_stream(44_100, ch, level, vec![Seg::Noise { amp: 3000, seed: 7, n }], vec![cut]));
            }
        }
    }
    for n in [65_534u32, 65_535, 65_536, 65_537, 131_071] {
        v.push(dir_stream(48_000, 1, level, vec![Seg::Walk { amp: 90, seed: 3, n }], vec![u32::MAX]));
    }
    v.push(dir_stream(48_000, 2, level, vec![Seg::Tone { amp: 20_000, period: 77, n: 70_000 }], vec![u32::MAX]));
    // many small frames: counts beyond 64 and 256 frames, odd channel counts
    for (ch, cut) in [(1u32, 3u32), (3, 5), (5, 4)] {
        v.push(dir_stream(8_000, ch, level, vec![Seg::Walk { amp: 400, seed: 9, n: 1500 }], vec![cut]));
    }
    // more frames than 16 bits count
    if level == 0 || level == 7 {
        for (ch, cut, n) in [(1u32, 2u32, 134_000u32), (3, 1, 23_000)] {
            v.push(dir_stream(8_000, ch, level, vec![Seg::Walk { amp: 60, seed: 19, n }], vec![cut]));
        }
    }
    // loud material: alternation, squares and noise at full scale
    for half in 1u16..=4 {
        v.push(dir_stream(44_100, 2, level, vec![Seg::Square { a: 32767, b: -32767, half, n: 400 }], vec![64]));
    }
    v.push(dir_stream(44_100, 1, level, vec![Seg::Noise { amp: 32767, seed: 1, n: 2000 }], vec![256]));
    v.push(dir_stream(44_100, 2, level, vec![Seg::Spikes { v: 32767, gap: 9, n: 700 }], vec![100]));
    for e in [32_765u16, 32_766, 32_767] {
        v.push(dir_stream(44_100, 1, level, vec![Seg::Resid { e, seed: 5, n: 300 }], vec![50]));
    }
    // wide layouts
    v.push(dir_stream(44_100, 300, level, vec![Seg::Noise { amp: 900, seed: 2, n: 12 }], vec![3]));
    v.push(dir_stream(44_100, 1030, level, vec![Seg::Noise { amp: 900, seed: 2, n: 5 }], vec![1]));
    v
}

/// more channels than any real layout
pub fn very_wide(level: u32, ch: u32) -> Stream {
    dir_stream(44_100, ch, level, vec![Seg::Noise { amp: 900, seed: 2, n: 5 }], vec![4])
}

// ------------------------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Case {
    s: Stream,
    from: From0,
    buf: u32,
}

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    type Case = C01Case;
    const RULE: &'static str = "a signal built from 0-6 segments (constant, ramp, tone, noise, walk, square, spikes, chosen residual sizes, raw 16-bit values, raw f32 bit patterns), 1-1500 channels, any rate and partition, encoded at level 0 and decoded after init, seek to 0 or save+load; non-trivial = at least 8 samples not all equal";
    const ASSUMPTIONS: &'static [&'static str] = &["the WAV codec's own conversion is checked against an independent bound in the same case"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 300_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C01Case> {
        (
            prop_oneof![40 => stream(Domain::Any, Just(0).boxed(), true), 1 => wide_stream(Domain::Any, Just(0).boxed())],
            from0(),
            prop_oneof![Just(1024u32), 1u32..5000],
        )
            .prop_map(|(s, from, buf)| C01Case { s, from, buf })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C01Case> {
        directed_streams(0)
            .into_iter()
            .chain([very_wide(0, 66_000)])
            .enumerate()
            .map(|(i, s)| C01Case { buf: 1024.max(s.ch), s, from: [From0::Init, From0::Seek, From0::Load][i % 3] })
            .collect()
    }
    fn check(c: &C01Case, obs: &mut Obs) -> Result<(), String> {
        let input = c.s.samples();
        classify(&c.s, obs);
        obs.nontrivial = input.len() >= 8 && input.iter().any(|x| x.to_bits() != input[0].to_bits());
        let codec = c.s.build(&input);
        let mut codec = to_start(codec, c.from)?;
        check_info(&codec, c.s.info())?;
        let out = play_all(&mut codec, input.len(), c.buf as usize)?;
        let want = through_wav(&input, c.s.info())?;
        if let Some(d) = first_diff(&out, &want) {
            return Err(format!("level 0 decode differs from 16-bit PCM: {}", d));
        }
        for i in 0..input.len() {
            if input[i].is_nan() {
                continue;
            }
            let d = (input[i].clamp(-1.0, 1.0) - out[i]).abs();
            ensure!(d <= STEP * 1.005, "sample {}: {} decoded as {}", i, input[i], out[i]);
        }
        check_exact(&input, &out)?;
        obs.label_if(input.iter().any(|&x| exact_unit(x).is_some_and(|u| u != 0)), "16-bit values that must survive");
        let loud = input.windows(2).any(|w| (w[0] - w[1]).abs() > 1.0);
        obs.label_if(loud, "jump > full half-scale");
        obs.label_if(input.iter().any(|x| !(x.abs() <= 1.0)), "out-of-range or non-finite input");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02Case {
    s: Stream,
    from: From0,
    /// requested level when above 10
    over: Option<u32>,
}

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    type Case = C02Case;
    const RULE: &'static str = "a signal in [-1,1] (same segment grammar), level 1-10 (or a larger u32, compared byte for byte with level 10), any channels, rate and partition; non-trivial = at least 8 samples not all equal";
    const ASSUMPTIONS: &'static [&'static str] = &["bound used: 1.005 * 2^level/32767 + 0.001 + 2e-6 (f32 rounding)"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 300_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C02Case> {
        let lv = (1u32..=10).boxed();
        (
            prop_oneof![40 => stream(Domain::Unit, lv.clone(), true), 1 => wide_stream(Domain::Unit, lv)],
            from0(),
            prop_oneof![
                8 => Just(None),
                1 => prop_oneof![11u32..40, any::<u32>().prop_map(|x| x.max(11)), Just(u32::MAX), Just(32u32)].prop_map(Some),
            ],
        )
            .prop_map(|(s, from, over)| C02Case { s, from, over })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C02Case> {
        let mut v = Vec::new();
        for (i, s) in (1..=10).flat_map(directed_streams).enumerate() {
            // the large ones only at a few levels
            if s.sig.blocks(1) < 60_000 || i % 5 == 0 {
                v.push(C02Case { s, from: From0::Init, over: None });
            }
        }
        v
    }
    fn check(c: &C02Case, obs: &mut Obs) -> Result<(), String> {
        let input = c.s.samples();
        classify(&c.s, obs);
        obs.nontrivial = input.len() >= 8 && input.iter().any(|x| x.to_bits() != input[0].to_bits());
        let mut s = c.s.clone();
        if let Some(over) = c.over {
            obs.label("level above 10");
            s.level = over;
            let a = save_adhoc(&s.build(&input))?;
            s.level = 10;
            let b = save_adhoc(&s.build(&input))?;
            ensure!(a == b, "level {} does not behave like level 10", over);
        }
        let codec = s.build(&input);
        let mut codec = to_start(codec, c.from)?;
        check_info(&codec, s.info())?;
        let out = play_all(&mut codec, input.len(), 1024)?;
        check_distortion(&input, &out, s.level)
    }
}

// ------------------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Case {
    rate: u32,
    ch: u32,
    level: u32,
    sig: Signal,
    /// call lengths in samples (not blocks), cycled until the signal is used up
    lens: Vec<u32>,
    /// the same stream again with another partition
    cuts: Cuts,
}

pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    type Case = C03Case;
    const RULE: &'static str = "a signal fed by calls of generated lengths in samples (0, below one block, block-misaligned, up to over 65535 blocks) and the surviving blocks again under a second partition; non-trivial = at least two non-empty calls";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 180_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C03Case> {
        let small = (
            rate(),
            prop_oneof![12 => channels(), 1 => 41u32..400],
            prop_oneof![3 => Just(0u32), 1 => 1u32..=10],
            mixed_signal(Domain::Unit, false),
            prop::collection::vec(
                prop_oneof![2 => Just(0u32), 4 => 1u32..=12, 3 => 0u32..=200, 1 => 0u32..=3000],
                1..=12,
            ),
            cuts(),
        );
        let big = (
            rate(),
            1u32..=2,
            prop_oneof![3 => Just(0u32), 1 => 1u32..=10],
            (any::<u16>(), 65_000u32..140_000).prop_map(|(seed, n)| Signal {
                segs: vec![Seg::Walk { amp: 200, seed, n }],
                frac: 0,
                mono: false,
                mute: 0,
            }),
            prop::collection::vec(
                prop_oneof![1 => 0u32..=10, 3 => 60_000u32..=150_000, 2 => 65_530u32..=65_540, 2 => 131_068u32..=131_074],
                1..=4,
            ),
            cuts(),
        );
        prop_oneof![150 => small, 1 => big]
            .prop_map(|(rate, ch, level, sig, lens, cuts)| {
                let total: u64 = lens.iter().map(|&l| l as u64).sum();
                let lens = if total == 0 { vec![1 + ch] } else { lens };
                // a second partition that stays below 3000 calls
                let mut t = Stream { rate, ch, level, sig, cuts };
                limit_calls(&mut t);
                C03Case { rate, ch, level, sig: t.sig, lens, cuts: t.cuts }
            })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C03Case> {
        let mut v = Vec::new();
        for ch in 1u32..=4 {
            for first in 0u32..=9 {
                for second in [0u32, 1, 7, 40] {
                    v.push(C03Case {
                        rate: 8000,
                        ch,
                        level: 0,
                        sig: Signal { segs: vec![Seg::Noise { amp: 9000, seed: 11, n: 60 }], frac: 0, mono: false, mute: 0 },
                        lens: vec![first, second, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 23],
                        cuts: vec![u32::MAX],
                    });
                }
            }
        }
        for n in [65_535u32, 65_536, 65_537, 65_538, 131_070, 131_071, 131_072, 200_000] {
            for ch in [1u32, 2] {
                v.push(C03Case {
                    rate: 8000,
                    ch,
                    level: 0,
                    sig: Signal { segs: vec![Seg::Walk { amp: 300, seed: 1, n: n + 5 }], frac: 0, mono: false, mute: 0 },
                    lens: vec![n * ch, 5 * ch],
                    cuts: vec![512],
                });
            }
        }
        v
    }
    fn check(c: &C03Case, obs: &mut Obs) -> Result<(), String> {
        let ch = c.ch as usize;
        let info = StreamInfo::new(c.rate, c.ch);
        let input = c.sig.expand(ch);
        let mut codec = AdhocCodec::new().with_compression_level(c.level).with_info(info);
        let mut wav = WavCodec::new(info);
        let mut kept: Vec<f32> = Vec::new();
        let mut at = 0;
        let mut calls = 0u32;
        let mut nonempty = 0;
        'outer: while at < input.len() {
            for &l in &c.lens {
                let n = (l as usize).min(input.len() - at);
                let slice = &input[at..at + n];
                at += n;
                let whole = n / ch * ch;
                let got = enc(&mut codec, slice);
                ensure!(
                    got == Some(whole),
                    "encode of {} samples on {} channels returned {:?}, {} were encoded",
                    n, ch, got, whole
                );
                let got = enc(&mut wav, slice);
                ensure!(got == Some(whole), "wav encode of {} samples on {} channels returned {:?}", n, ch, got);
                kept.extend_from_slice(&slice[..whole]);
                calls += 1;
                nonempty += (whole > 0) as u32;
                obs.label_if(n == 0, "empty call");
                obs.label_if(n > 0 && n < ch, "call below one block");
                obs.label_if(n % ch != 0, "misaligned call");
                obs.label_if(whole / ch > 65_535, "call over 65535 blocks");
                obs.label_if(nonempty == 1 && whole > 0 && whole / ch < 3, "first call of 1-2 blocks");
                if calls > 4000 {
                    break 'outer;
                }
            }
        }
        obs.nontrivial = nonempty >= 2;
        codec.init();
        ensure!(
            codec.calculate_sample_count_per_channel() as usize * ch == kept.len(),
            "{} samples per channel counted, {} encoded",
            codec.calculate_sample_count_per_channel(),
            kept.len() / ch
        );
        let out = play_all(&mut codec, kept.len(), 1024)?;
        check_distortion(&kept, &out, c.level)?;
        // the same blocks under another partition
        let other = Stream { rate: c.rate, ch: c.ch, level: c.level, sig: c.sig.clone(), cuts: c.cuts.clone() };
        let mut second = other.build(&kept);
        second.init();
        let out2 = play_all(&mut second, kept.len(), 1024)?;
        check_distortion(&kept, &out2, c.level)?;
        if c.level == 0 {
            if let Some(d) = first_diff(&out, &out2) {
                return Err(format!("two partitions decode differently: {}", d));
            }
        }
        wav.seek(SeekFrom::Start(0));
        let w = decode_rest(&mut wav, 1024, kept.len())?;
        ensure!(w.len() == kept.len(), "wav kept {} samples of {}", w.len(), kept.len());
        check_distortion(&kept, &w, 0)
    }
}

// ------------------------------------------------------------------------------------ C04

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub enum At {
    /// after this many encode calls (wrapped into range), while still encoding
    Call(u16),
    /// after the last encode call
    End,
    Init,
    /// after decoding this many samples
    Decoded(u16),
    /// after seeking to this permille of the duration
    Sought(u16),
}

fn at() -> BoxedStrategy<At> {
    prop_oneof![
        2 => any::<u16>().prop_map(At::Call),
        1 => Just(At::End),
        1 => Just(At::Init),
        2 => (0u16..3000).prop_map(At::Decoded),
        2 => (0u16..1200).prop_map(At::Sought),
    ]
    .boxed()
}

pub fn duration_ms(blocks: usize, rate: u32) -> u64 {
    (blocks as u64 * 1000).div_ceil(rate.max(1) as u64)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04Case {
    s: Stream,
    points: Vec<At>,
}

pub struct C04;
impl C04 {
    fn loads_to(bytes: &[u8], s: &Stream, want: &[f32], when: &str) -> Result<AdhocCodec, String> {
        let mut l = load_adhoc(bytes).map_err(|e| format!("{} ({})", e, when))?;
        check_info(&l, s.info())?;
        let n = l.calculate_sample_count_per_channel() as usize * s.ch as usize;
        ensure!(n == want.len(), "{}: loaded codec counts {} samples of {}", when, n, want.len());
        let out = play_all(&mut l, want.len(), 777)?;
        if let Some(d) = first_diff(&out, want) {
            return Err(format!("{}: loaded codec decodes differently: {}", when, d));
        }
        Ok(l)
    }
}
impl Prop for C04 {
    const ID: &'static str = "C04";
    type Case = C04Case;
    const RULE: &'static str = "a stream at any level and 1-5 (rarely hundreds of) save points (during encoding, at the end, after rewinding, mid-decode, after a seek); each save is loaded, compared with an undisturbed twin, re-saved and loaded again; non-trivial = at least 8 samples and two kinds of save point";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 90_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C04Case> {
        let usual = (
            prop_oneof![40 => stream(Domain::Any, level(), true), 1 => wide_stream(Domain::Any, level())],
            prop::collection::vec(at(), 1..=5),
        );
        let long = (small_stream(Domain::Any), prop::collection::vec(at(), LONG));
        prop_oneof![1000 => usual, 1 => long].prop_map(|(s, points)| C04Case { s, points }).boxed()
    }
    fn directed(_: Tier) -> Vec<C04Case> {
        (0..=10u32)
            .flat_map(|l| directed_streams(l).into_iter().enumerate().filter(move |(i, s)| {
                l % 5 == 0 || (s.sig.blocks(1) < 3000 && i % 3 == (l % 3) as usize)
            }))
            .map(|(_, s)| s)
            .chain([very_wide(3, 65_535), very_wide(0, 66_000)])
            .map(|s| C04Case { s, points: vec![At::End, At::Decoded(5), At::Sought(500)] })
            .collect()
    }
    fn check(c: &C04Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let input = s.samples();
        classify(s, obs);
        let calls = s.calls(&input);
        let ch = s.ch as usize;
        // undisturbed twin
        let mut twin = s.build(&input);
        twin.init();
        let full = play_all(&mut twin, input.len(), 1024)?;
        ensure!(full.len() == input.len(), "{} samples decoded, {} encoded", full.len(), input.len());

        let mut codec = s.empty_codec();
        let cut_points: Vec<usize> = c
            .points
            .iter()
            .filter_map(|p| match p {
                At::Call(k) if !calls.is_empty() => Some(*k as usize % calls.len()),
                _ => None,
            })
            .collect();
        let mut done = 0;
        for (i, call) in calls.iter().enumerate() {
            if cut_points.contains(&i) {
                obs.label("save while encoding");
                let b = save_adhoc(&codec)?;
                // what had been encoded so far: the same calls given to a fresh codec
                let mut part = s.empty_codec();
                calls[..i].iter().for_each(|x| {
                    enc(&mut part, x);
                });
                part.init();
                let want = play_all(&mut part, done, 1024)?;
                Self::loads_to(&b, s, &want, "saved while encoding")?;
            }
            enc(&mut codec, call);
            done += call.len();
        }
        for p in &c.points {
            match *p {
                At::Call(_) => continue,
                At::End => obs.label("save after encoding"),
                At::Init => {
                    obs.label("save after rewind");
                    codec.init()
                }
                At::Decoded(n) => {
                    obs.label("save mid-decode");
                    codec.init();
                    let mut buf = vec![0.0; n as usize];
                    dec(&mut codec, &mut buf);
                }
                At::Sought(f) => {
                    obs.label("save after seek");
                    let ms = duration_ms(input.len() / ch, s.rate) * f as u64 / 1000;
                    codec.seek(SeekFrom::Start(ms));
                }
            }
            let b = save_adhoc(&codec)?;
            ensure!(save_adhoc(&codec)? == b, "saving twice writes different bytes");
            let l = Self::loads_to(&b, s, &full, &format!("saved at {:?}", p))?;
            let again = save_adhoc(&l)?;
            Self::loads_to(&again, s, &full, &format!("re-saved after {:?}", p))?;
            let fresh = load_adhoc(&b)?;
            Self::loads_to(&save_adhoc(&fresh)?, s, &full, "re-saved untouched")?;
        }
        // saving disturbed nothing
        codec.init();
        let out = play_all(&mut codec, input.len(), 1024)?;
        if let Some(d) = first_diff(&out, &full) {
            return Err(format!("the codec decodes differently after being saved: {}", d));
        }
        obs.nontrivial = input.len() >= 8 && c.points.len() >= 2;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C05

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub enum Play {
    Decode(u32),
    Init,
    Seek0,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C05Case {
    s: Stream,
    loaded: bool,
    /// the WAV file is loaded without this many of its last bytes
    #[serde(default)]
    cut: u8,
    ops: Vec<Play>,
}

pub struct C05;

pub fn sentinel(i: usize) -> f32 {
    f32::from_bits(0x3F00_0000 | ((i as u32).wrapping_mul(7919)) & 0x003F_FFFF)
}

fn play_model<S: Streamable>(
    c: &mut S,
    what: &str,
    full: &[f32],
    ops: &[Play],
    init: impl Fn(&mut S),
    obs: &mut Obs,
) -> Result<(), String> {
    let ch = Streamable::info(c).channels();
    let mut pos = 0usize;
    let run = |c: &mut S, pos: &mut usize, n: usize, obs: &mut Obs| -> Result<(), String> {
        let mut buf: Vec<f32> = (0..n).map(sentinel).collect();
        let got = dec(c, &mut buf);
        let want = (n / ch * ch).min(full.len() - *pos);
        let expect = (want > 0).then_some(want);
        ensure!(
            got == expect,
            "{}: decode into {} samples at {} of {} ({} channels) returned {:?} instead of {:?}",
            what, n, *pos, full.len(), ch, got, expect
        );
        if let Some(d) = first_diff(&buf[..want], &full[*pos..*pos + want]) {
            return Err(format!("{}: decode at {} yields {}", what, *pos, d));
        }
        for i in want..n {
            ensure!(
                buf[i].to_bits() == sentinel(i).to_bits(),
                "{}: decode reported {} samples but changed entry {} of the caller's buffer",
                what, want, i
            );
        }
        obs.label_if(want > 0 && want < n / ch * ch, "read across the end");
        obs.label_if(n % ch != 0, "buffer not a multiple of the channels");
        *pos += want;
        Ok(())
    };
    for op in ops {
        match *op {
            Play::Decode(n) => run(c, &mut pos, n as usize, obs)?,
            Play::Init => {
                obs.label_if(pos > 0 && pos < full.len(), "rewind mid-stream");
                init(c);
                pos = 0;
            }
            Play::Seek0 => {
                obs.label_if(pos > 0 && pos < full.len(), "rewind mid-stream");
                c.seek(SeekFrom::Start(0));
                pos = 0;
            }
        }
    }
    // to the end, and past it
    let left = full.len() - pos;
    run(c, &mut pos, left + ch, obs)?;
    run(c, &mut pos, 3 * ch, obs)
}

impl Prop for C05 {
    const ID: &'static str = "C05";
    type Case = C05Case;
    const RULE: &'static str = "a stream (fresh or loaded, any level) held in an AdhocCodec and in a WavCodec, and 1-20 (rarely hundreds of) operations: decode into a buffer of n samples (0, below a block, odd, beyond the end), init, seek to start; model = sequence + position, buffers pre-filled with sentinels; non-trivial = at least 3 decodes and 8 samples";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 150_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C05Case> {
        let op = || {
            prop_oneof![
                4 => (0u32..=20).prop_map(Play::Decode),
                6 => (0u32..=900).prop_map(Play::Decode),
                1 => (900u32..=9000).prop_map(Play::Decode),
                1 => round_size(140_000).prop_map(Play::Decode),
                1 => Just(Play::Init),
                1 => Just(Play::Seek0),
            ]
        };
        let usual = (
            prop_oneof![40 => stream(Domain::Unit, level(), true), 1 => wide_stream(Domain::Unit, level())],
            prop::collection::vec(op(), 1..=20),
        );
        let long = (
            prop_oneof![2 => small_stream(Domain::Unit), 1 => stream(Domain::Unit, level(), false)],
            prop_oneof![
                prop::collection::vec(op(), LONG),
                prop::collection::vec(
                    prop_oneof![20 => (0u32..=20).prop_map(Play::Decode), 1 => Just(Play::Init), 1 => Just(Play::Seek0)],
                    LONG
                ),
                prop::collection::vec(
                    prop_oneof![1 => (0u32..=20).prop_map(Play::Decode), 1 => Just(Play::Init), 1 => Just(Play::Seek0)],
                    LONG
                ),
            ],
        );
        (prop_oneof![300 => usual, 1 => long], any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 1u8..20])
            .prop_map(|((s, ops), loaded, cut)| C05Case { s, loaded, ops, cut })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C05Case> {
        let mut v = Vec::new();
        for l in [0u32, 4, 10] {
            for s in directed_streams(l) {
                v.push(C05Case {
                    s,
                    loaded: l == 4,
                    cut: 1,
                    ops: vec![Play::Decode(7), Play::Decode(1), Play::Decode(0), Play::Init, Play::Decode(64), Play::Seek0],
                });
            }
        }
        v
    }
    fn check(c: &C05Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let input = s.samples();
        classify(s, obs);
        let mut twin = s.build(&input);
        twin.init();
        // reference sequence: one big read
        let mut full = vec![0.0f32; input.len()];
        let n = dec(&mut twin, &mut full).unwrap_or(0);
        ensure!(n == input.len(), "one read of the whole stream returned {} of {}", n, input.len());
        check_distortion(&input, &full, s.level)?;
        let mut codec = s.build(&input);
        if c.loaded {
            codec = load_adhoc(&save_adhoc(&codec)?)?;
        } else {
            codec.init();
        }
        play_model(&mut codec, "adhoc", &full, &c.ops, |c| c.init(), obs)?;

        let mut wav = WavCodec::new(s.info());
        for call in s.calls(&input) {
            enc(&mut wav, call);
        }
        let mut len = input.len();
        if c.loaded {
            let mut file = save_wav(&wav)?;
            // only whole blocks are played, however the file ends
            let ch = s.ch as usize;
            let cut = (c.cut as usize).min(len * 2);
            file.truncate(file.len() - cut);
            len = (len * 2 - cut) / (2 * ch) * ch;
            obs.label_if(cut > 0, "wav file ends within a block");
            wav = load_wav(&file)?;
        } else {
            wav.seek(SeekFrom::Start(0));
        }
        let mut full = vec![0.0f32; input.len() + 1];
        let n = dec(&mut wav, &mut full).unwrap_or(0);
        ensure!(n == len, "wav: one read of the whole stream returned {} of {}", n, len);
        full.truncate(len);
        check_distortion(&input[..len], &full, 0)?;
        wav.seek(SeekFrom::Start(0));
        play_model(&mut wav, "wav", &full, &c.ops, |w| w.seek(SeekFrom::Start(0)), obs)?;
        let decodes = c.ops.iter().filter(|o| matches!(o, Play::Decode(n) if *n >= s.ch)).count();
        obs.nontrivial = decodes >= 3 && input.len() >= 8;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C06

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub enum Nav {
    Decode(u32),
    Init,
    Seek0,
    /// milliseconds
    Seek(u64),
    /// the first millisecond at or after this block (wrapped into the stream plus a little)
    Block(u32),
    /// permille of the duration
    Frac(u16),
}

fn nav() -> BoxedStrategy<Nav> {
    prop_oneof![
        6 => (0u32..=700).prop_map(Nav::Decode),
        1 => round_size(140_000).prop_map(Nav::Decode),
        2 => Just(Nav::Init),
        2 => Just(Nav::Seek0),
        4 => (0u64..=60).prop_map(Nav::Seek),
        2 => prop_oneof![any::<u64>(), Just(u64::MAX), Just(u64::MAX / 2), (0u32..64).prop_map(|k| 1u64 << k)].prop_map(Nav::Seek),
        8 => any::<u32>().prop_map(Nav::Block),
        8 => (0u16..=1250).prop_map(Nav::Frac),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C06Case {
    s: Stream,
    loaded: bool,
    ops: Vec<Nav>,
    /// not `s` itself, but this many times its samples: too long to be compared as a whole
    #[serde(default)]
    times: Option<u32>,
}

/// The blocks at which a seek to `ms` may land: (lowest, highest), clamped to `total`.
pub fn seek_window(ms: u64, rate: u32, total: u64) -> (u64, u64) {
    let num = ms as u128 * rate as u128;
    let exact = num / 1000;
    let slack = (rate % 1000 != 0) as u128;
    let (lo, hi) = (exact.saturating_sub(slack), exact + slack);
    (lo.min(total as u128) as u64, hi.min(total as u128) as u64)
}

/// `times` copies of `input` (level 0), sampled after every seek
fn check_repeated(c: &C06Case, times: u32, input: &[f32], obs: &mut Obs) -> Result<(), String> {
    let s = &c.s;
    let ch = s.ch as usize;
    pbt::engine::limit_case_allocation(6 << 30);
    let want = through_wav(input, s.info())?;
    let mut codec = s.empty_codec();
    for _ in 0..times {
        enc(&mut codec, input);
    }
    let total = (input.len() / ch) as u64 * times as u64;
    let count = codec.calculate_sample_count_per_channel();
    ensure!(count == total, "{} samples per channel reported, {} encoded", count, total);
    let bits = Streamable::filesize_upperbound(&codec);
    obs.label_if(bits > 1 << 32, "more than 2^32 bits");
    if c.loaded {
        codec = load_adhoc(&save_adhoc(&codec)?)?;
    }
    let mut buf = vec![0.0f32; 300 * ch];
    for op in &c.ops {
        let Nav::Frac(f) = *op else { continue };
        let ms = duration_ms(total as usize, s.rate) * f as u64 / 1000;
        codec.seek(SeekFrom::Start(ms));
        let n = dec(&mut codec, &mut buf).unwrap_or(0);
        let (lo, _) = seek_window(ms, s.rate, total);
        ensure!(n as u64 == (buf.len() as u64).min((total - lo) * ch as u64), "after seeking to {} ms, {} samples decode", ms, n);
        for (i, &x) in buf[..n].iter().enumerate() {
            let at = (lo as usize * ch + i) % want.len();
            ensure!(x.to_bits() == want[at].to_bits(), "after seeking to {} ms, sample {} is {} instead of {}", ms, i, x, want[at]);
        }
    }
    Ok(())
}

pub struct C06;
impl C06 {
    /// Seeks and returns the block reached, having checked that decoding from there is a suffix.
    pub fn seek_and_probe(c: &mut AdhocCodec, ms: u64, rate: u32, full: &[f32], ch: usize) -> Result<u64, String> {
        c.seek(SeekFrom::Start(ms));
        let rest = decode_rest(c, 1024, full.len() + 100_000)?;
        ensure!(rest.len() <= full.len() && rest.len() % ch == 0,
            "after seeking to {} ms, {} samples decode ({} channels, {} in the stream)", ms, rest.len(), ch, full.len());
        let pos = full.len() - rest.len();
        let (lo, hi) = seek_window(ms, rate, (full.len() / ch) as u64);
        let block = (pos / ch) as u64;
        ensure!(lo <= block && block <= hi,
            "seek to {} ms at {} Hz landed on block {} of {}, expected {}..={}", ms, rate, block, full.len() / ch, lo, hi);
        if let Some(d) = first_diff(&rest, &full[pos..]) {
            return Err(format!("after seeking to {} ms (block {}), playback differs from sequential decoding at {}", ms, block, d));
        }
        Ok(block)
    }
}
impl Prop for C06 {
    const ID: &'static str = "C06";
    type Case = C06Case;
    const RULE: &'static str = "a stream (any level, channels, chunking, rate; fresh or loaded) and 1-10 (rarely hundreds of) operations: decode n, init, seek 0, seek to a millisecond value, to a block boundary, to a fraction of the duration, past the end, to huge values; after each seek the rest must be a suffix of sequential decoding starting in the allowed window; non-trivial = at least one seek strictly inside the stream";
    const ASSUMPTIONS: &'static [&'static str] = &["allowed landing window: exact for whole-kHz rates, otherwise one block either way"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 120_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C06Case> {
        let usual = (
            prop_oneof![40 => stream(Domain::Any, level(), true), 1 => wide_stream(Domain::Any, level())],
            prop::collection::vec(nav(), 1..=10),
        );
        let long = (small_stream(Domain::Any), prop::collection::vec(nav(), LONG));
        (
            prop_oneof![300 => usual, 1 => long],
            any::<bool>(),
            prop_oneof![2 => slow_rate().prop_map(Some), 1 => Just(None)],
        )
            .prop_map(|((mut s, ops), loaded, rate)| {
                s.rate = rate.unwrap_or(s.rate);
                C06Case { s, loaded, ops, times: None }
            })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C06Case> {
        let mut v = Vec::new();
        for l in [0u32, 3, 7] {
            for mut s in directed_streams(l) {
                s.rate = if l == 3 { 1000 } else { s.rate };
                let n = s.sig.blocks(s.ch as usize) as u32;
                v.push(C06Case {
                    s: s.clone(),
                    loaded: l == 7,
                    ops: vec![Nav::Block(0), Nav::Block(1), Nav::Block(n / 2), Nav::Decode(5 * s.ch), Nav::Block(n.saturating_sub(1)),
                        Nav::Block(n), Nav::Block(n + 1), Nav::Seek(1), Nav::Seek(u64::MAX), Nav::Frac(333)],
                    times: None,
                });
                // every block of a small multi-frame stream
                if n > 3 && n < 70 && s.rate == 1000 {
                    v.push(C06Case { s, loaded: false, ops: (0..=n + 2).map(|b| Nav::Seek(b as u64)).collect(), times: None });
                }
            }
        }
        for ch in 1..=4u32 {
            for cut in [1u32, 2, 3, 5] {
                let mut s = dir_stream(1000, ch, 0, vec![Seg::Noise { amp: 20_000, seed: 8, n: 33 }], vec![cut, 4]);
                s.sig.frac = 3;
                v.push(C06Case { s, loaded: ch % 2 == 0, ops: (0..36).map(|b| Nav::Seek(b as u64)).collect(), times: None });
            }
        }
        // more blocks than f32 can count: a few minutes of music
        for (rate, ms) in [(47_000u32, 357_447u64), (44_100, 390_011), (11_025, 1_590_007)] {
            v.push(C06Case {
                s: dir_stream(rate, 1, 0, vec![Seg::Tone { amp: 9, period: 1000, n: 17_600_000 }], vec![60_001]),
                loaded: rate == 44_100,
                ops: (0..4).map(|k| Nav::Seek(ms + k * 7)).collect(),
                times: None,
            });
        }
        // long stream at an awkward rate
        v.push(C06Case {
            s: dir_stream(44_100, 2, 5, vec![Seg::Tone { amp: 9000, period: 100, n: 300_000 }], vec![1024]),
            loaded: true,
            ops: vec![Nav::Frac(999), Nav::Frac(500), Nav::Frac(250), Nav::Frac(1000), Nav::Frac(1001)],
            times: None,
        });
        // more bits than 32 bits can count: an hour and a half of noise
        v.push(C06Case {
            s: dir_stream(48_000, 2, 0, vec![Seg::Noise { amp: 32_767, seed: 5, n: 65_000 }], vec![65_000]),
            loaded: true,
            ops: [0u16, 1, 250, 500, 750, 900, 950, 980, 990, 995, 999, 1000, 1001].map(Nav::Frac).to_vec(),
            times: Some(2150),
        });
        v
    }
    fn check(c: &C06Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let input = s.samples();
        if let Some(times) = c.times {
            pbt::engine::expect_long_case();
            obs.label("repeated stream");
            obs.nontrivial = true;
            return check_repeated(c, times, &input, obs);
        }
        classify(s, obs);
        let mut codec = s.build(&input);
        if c.loaded {
            codec = load_adhoc(&save_adhoc(&codec)?)?;
        }
        codec.init();
        let full = play_all(&mut codec, input.len(), 1024)?;
        let total = (full.len() / ch) as u64;
        ensure!(full.len() == input.len(), "{} samples decoded, {} encoded", full.len(), input.len());
        codec.init();
        let mut pos = 0usize; // in samples
        for op in &c.ops {
            let ms = match *op {
                Nav::Decode(n) => {
                    let n = n as usize;
                    let mut buf = vec![0.0; n];
                    let got = dec(&mut codec, &mut buf).unwrap_or(0);
                    let want = (n / ch * ch).min(full.len() - pos);
                    ensure!(got == want, "decode of {} at {} returned {} of {}", n, pos, got, want);
                    if let Some(d) = first_diff(&buf[..got], &full[pos..pos + got]) {
                        return Err(format!("decode at {} after seeks yields {}", pos, d));
                    }
                    pos += got;
                    continue;
                }
                Nav::Init => {
                    codec.init();
                    pos = 0;
                    continue;
                }
                Nav::Seek0 => 0,
                Nav::Seek(ms) => ms,
                Nav::Block(b) => {
                    let b = b as u64 % (total + 3);
                    (b * 1000).div_ceil(s.rate as u64)
                }
                Nav::Frac(f) => duration_ms(total as usize, s.rate) * f as u64 / 1000,
            };
            let block = Self::seek_and_probe(&mut codec, ms, s.rate, &full, ch)?;
            if block > 0 && block < total {
                obs.nontrivial = true;
                obs.label("seek inside the stream");
            }
            obs.label_if(block >= total && total > 0, "seek to or past the end");
            obs.label_if(total == 0 && ms > 0, "seek in an empty stream");
            // the probe consumed the stream: seek again, and go on from there
            codec.seek(SeekFrom::Start(ms));
            pos = block as usize * ch;
        }
        let rest = decode_rest(&mut codec, 512, full.len())?;
        if let Some(d) = first_diff(&rest, &full[pos..]) {
            return Err(format!("the remainder after the last operation differs: {}", d));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C07

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub struct Between {
    /// decode this many samples from the start before rewinding (0: none)
    decode: u16,
    /// seek to this permille of the duration before rewinding
    seek: Option<u16>,
    /// save and load before rewinding
    reload: bool,
    by_seek: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Case {
    rate: u32,
    ch: u32,
    level: u32,
    takes: Vec<(Signal, Cuts)>,
    between: Vec<Between>,
    nav: Vec<u16>,
    /// (rate, channels, level) set for the takes after the first, where given and the take isn't empty
    #[serde(default)]
    setups: Vec<Option<(u32, u32, u32)>>,
}

pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    type Case = C07Case;
    const RULE: &'static str = "a chain of 2-4 (rarely hundreds of) takes (signals with partitions, possibly empty) encoded into one codec, with decode/seek/save+load and a rewind (init or seek 0) between; compared with a fresh codec given only the last take: count, decode, seeks, save+load; non-trivial = an earlier take has more samples than the last";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 180_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C07Case> {
        let take = (mixed_signal(Domain::Unit, false), cuts());
        let large = (mixed_signal(Domain::Unit, true), cuts());
        let tiny = (signal(Domain::Unit, 12), prop::collection::vec(1u32..20, 1..3));
        let between = (
            prop_oneof![Just(0u16), 0u16..2000],
            prop_oneof![2 => Just(None), 1 => (0u16..1100).prop_map(Some)],
            prop::bool::weighted(0.25),
            any::<bool>(),
        )
            .prop_map(|(decode, seek, reload, by_seek)| Between { decode, seek, reload, by_seek });
        (
            rate(),
            channels(),
            prop_oneof![3 => Just(0u32), 2 => 1u32..=10],
            prop_oneof![
                360 => prop::collection::vec(take, 2..=4),
                6 => prop::collection::vec(large, 2..=3),
                1 => prop::collection::vec(tiny, LONG),
            ],
            prop::collection::vec(between, 3),
            prop::collection::vec(0u16..1200, 0..4),
            prop::collection::vec(
                prop_oneof![2 => Just(None), 1 => (rate(), channels(), prop_oneof![Just(0u32), 1u32..=10]).prop_map(Some)],
                3,
            ),
        )
            .prop_map(|(rate, ch, level, takes, between, nav, setups)| {
                let takes = takes
                    .into_iter()
                    .enumerate()
                    .map(|(i, (sig, cuts))| {
                        let ch = setups[..i.min(3)].iter().rev().flatten().next().map_or(ch, |s| s.1);
                        let mut t = Stream { rate, ch, level, sig, cuts };
                        limit_calls(&mut t);
                        (t.sig, t.cuts)
                    })
                    .collect();
                C07Case { rate, ch, level, takes, between, nav, setups }
            })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C07Case> {
        let mut v = Vec::new();
        for (a, b) in [(1000u32, 10u32), (10, 1000), (500, 500), (300, 0), (0, 300), (5, 4), (131, 130), (130, 131)] {
            for cut in [3u32, 64, u32::MAX] {
                for (ch, by_seek, reload) in [(1u32, true, false), (2, false, true), (3, false, false)] {
                    let t = |n, seed| (Signal { segs: vec![Seg::Noise { amp: 12_000, seed, n }], frac: 0, mono: false, mute: 0 }, vec![cut]);
                    v.push(C07Case {
                        rate: 8000, ch, level: 0,
                        takes: vec![t(a, 1), t(b, 2)],
                        between: vec![Between { decode: 17, seek: None, reload, by_seek }],
                        nav: vec![100, 900, 1100],
                        setups: vec![],
                    });
                    for setup in [(8000, ch + 1, 0), (8000, 1, 0), (16_000, ch, 0), (8000, ch, 4)] {
                        v.push(C07Case {
                            rate: 8000, ch, level: 0,
                            takes: vec![t(a, 1), t(b, 2)],
                            between: vec![Between { decode: 17, seek: Some(700), reload, by_seek }],
                            nav: vec![100, 900, 1100],
                            setups: vec![Some(setup)],
                        });
                    }
                }
            }
        }
        // more frames than 16 bits count, and frames of the largest size
        let t = |n, seed, cut| (Signal { segs: vec![Seg::Noise { amp: 12_000, seed, n }], frac: 0, mono: false, mute: 0 }, vec![cut]);
        for (a, b) in [(t(70_000, 1, 1), t(66_000, 2, 1)), (t(140_000, 1, u32::MAX), t(131_071, 2, u32::MAX)), (t(66_000, 1, 1), t(131_071, 2, u32::MAX)),
                       (t(131_071, 1, u32::MAX), t(66_000, 2, 1)), (t(70_000, 1, 1), t(100, 2, 7))] {
            for (ch, reload) in [(1u32, true), (2, false)] {
                v.push(C07Case {
                    rate: 8000, ch, level: 0,
                    takes: vec![a.clone(), b.clone()],
                    between: vec![Between { decode: 17, seek: Some(930), reload, by_seek: reload }],
                    nav: vec![100, 950],
                    setups: vec![],
                });
            }
        }
        v
    }
    fn check(c: &C07Case, obs: &mut Obs) -> Result<(), String> {
        let take = |i: usize, rate: u32, ch: u32, level: u32| Stream {
            rate,
            ch,
            level,
            sig: c.takes[i].0.clone(),
            cuts: c.takes[i].1.clone(),
        };
        let mut s = take(0, c.rate, c.ch, c.level);
        let mut codec = s.empty_codec();
        let mut longest = 0;
        for i in 0..c.takes.len() {
            let setup = if i > 0 { c.setups.get(i - 1).copied().flatten() } else { None };
            // an empty take replaces nothing, so the old configuration has to stay, too
            let setup = setup.filter(|&(_, ch, _)| c.takes[i].0.blocks(ch as usize) > 0);
            if i > 0 {
                let b = c.between[(i - 1) % c.between.len()];
                if b.decode > 0 {
                    codec.init();
                    dec(&mut codec, &mut vec![0.0; b.decode as usize]);
                }
                if let Some(f) = b.seek {
                    let n = codec.calculate_sample_count_per_channel() as usize;
                    codec.seek(SeekFrom::Start(duration_ms(n, s.rate) * f as u64 / 1000));
                }
                if b.reload {
                    obs.label("reload between takes");
                    codec = load_adhoc(&save_adhoc(&codec)?)?;
                }
                // the stream info may be changed before or after the rewind
                if let (Some((rate, ch, _)), true) = (setup, b.decode % 2 == 0) {
                    codec.set_info(StreamInfo::new(rate, ch));
                }
                if b.by_seek {
                    codec.seek(SeekFrom::Start(0));
                } else {
                    codec.init();
                }
                s = match setup {
                    Some((rate, ch, level)) => {
                        obs.label_if(ch != s.ch, "channel count changed");
                        obs.label_if(level != s.level, "level changed");
                        if b.decode % 2 == 1 {
                            codec.set_info(StreamInfo::new(rate, ch));
                        }
                        codec = codec.with_compression_level(level);
                        take(i, rate, ch, level)
                    }
                    None => take(i, s.rate, s.ch, s.level),
                };
            }
            let input = s.samples();
            for call in s.calls(&input) {
                enc(&mut codec, call);
            }
            if i + 1 < c.takes.len() {
                longest = longest.max(input.len());
                continue;
            }
            if input.is_empty() {
                // nothing was encoded, so nothing replaced the old take
                obs.label("last take empty");
                return Ok(());
            }
            let ch = s.ch as usize;
            obs.nontrivial = longest > input.len();
            obs.label(if longest > input.len() { "last take shorter" } else { "last take longer or equal" });
            check_info(&codec, s.info())?;
            let n = codec.calculate_sample_count_per_channel() as usize;
            ensure!(n == input.len() / ch, "{} samples per channel counted after re-encoding {}", n, input.len() / ch);
            let bytes = save_adhoc(&codec)?;
            codec.init();
            let out = play_all(&mut codec, input.len(), 1024)?;
            check_distortion(&input, &out, s.level)?;
            let mut loaded = load_adhoc(&bytes)?;
            check_info(&loaded, s.info())?;
            let n = loaded.calculate_sample_count_per_channel() as usize;
            ensure!(n == input.len() / ch, "{} samples per channel after reload, {} encoded", n, input.len() / ch);
            let lo = play_all(&mut loaded, input.len(), 1024)?;
            if let Some(d) = first_diff(&lo, &out) {
                return Err(format!("saved re-encoded stream decodes differently: {}", d));
            }
            if s.level == 0 {
                let mut fresh = s.build(&input);
                let clean = save_adhoc(&fresh)?;
                ensure!(bytes.len() == clean.len(),
                    "the re-encoded stream saves {} bytes, a fresh one {}", bytes.len(), clean.len());
                fresh.init();
                let want = play_all(&mut fresh, input.len(), 1024)?;
                if let Some(d) = first_diff(&out, &want) {
                    return Err(format!("re-encoded stream differs from a fresh one: {}", d));
                }
            }
            for &f in &c.nav {
                let ms = duration_ms(input.len() / ch, s.rate) * f as u64 / 1000;
                C06::seek_and_probe(&mut codec, ms, s.rate, &out, ch)?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08Case {
    s: Stream,
    ops: Vec<Nav>,
    /// not `s`, but a file with this many frames per channel of this size (too long to be decoded)
    #[serde(default)]
    declared: Option<(u32, u16)>,
}

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    type Case = C08Case;
    const RULE: &'static str = "a stream whose count is taken after every encode call, after each of 0-8 (rarely hundreds of) decode/seek/rewind operations, and after save+load; compared with the number of blocks encoded and decoded; non-trivial = at least two non-empty encode calls";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 240_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C08Case> {
        let usual = (
            prop_oneof![40 => stream(Domain::Unit, level(), true), 1 => wide_stream(Domain::Unit, level())],
            prop::collection::vec(nav(), 0..=8),
        );
        let long = (small_stream(Domain::Unit), prop::collection::vec(nav(), LONG));
        prop_oneof![300 => usual, 1 => long]
            .prop_map(|(s, ops)| C08Case { s, ops, declared: None })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C08Case> {
        let mut v: Vec<_> = directed_streams(0)
            .into_iter()
            .chain([very_wide(0, 66_000)])
            .map(|s| C08Case { s, ops: vec![Nav::Decode(3), Nav::Frac(500), Nav::Init], declared: None })
            .collect();
        // totals beyond 65535 spread over many frames
        v.push(C08Case {
            s: dir_stream(48_000, 1, 2, vec![Seg::Tone { amp: 1000, period: 90, n: 200_000 }], vec![30_000, 777]),
            ops: vec![],
            declared: None,
        });
        // totals beyond 32 bits, over all channels and in each of them
        for (ch, frames, size) in [(1u32, 65_540u32, 65_535u16), (2, 40_000, 65_535), (3, 66_000, 65_535), (5, 300_000, 12_345)] {
            v.push(C08Case { s: dir_stream(8000, ch, 0, vec![], vec![]), ops: vec![], declared: Some((frames, size)) });
        }
        v
    }
    fn check(c: &C08Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        if let Some((frames, size)) = c.declared {
            obs.label("declared length");
            let mut f = RefFile::encode(s.level, (s.rate, s.ch), &[], &[]);
            for _ in 0..frames as usize * ch {
                f.push_frame(1, false, size, 0, [0; 3]);
            }
            let n = load_adhoc(&f.to_bytes())?.calculate_sample_count_per_channel();
            let want = frames as u64 * size as u64;
            ensure!(n == want, "{} frames of {} samples are reported as {} samples", frames, size, n);
            return Ok(());
        }
        let input = s.samples();
        classify(s, obs);
        let mut codec = s.empty_codec();
        let expect = |codec: &AdhocCodec, want: usize, when: &str| -> Result<(), String> {
            let n = codec.calculate_sample_count_per_channel();
            ensure!(n as usize == want, "{}: {} samples per channel reported, {} encoded", when, n, want);
            Ok(())
        };
        expect(&codec, 0, "empty codec")?;
        let mut done = 0;
        let mut calls = 0;
        for call in s.calls(&input) {
            enc(&mut codec, call);
            done += call.len() / ch;
            calls += !call.is_empty() as u32;
            // the count is linear in the frames: check early calls and a sample of later ones
            if calls < 80 || calls % 97 == 0 {
                expect(&codec, done, "while encoding")?;
            }
        }
        expect(&codec, done, "after encoding")?;
        obs.nontrivial = calls >= 2;
        codec.init();
        expect(&codec, done, "after init")?;
        for op in &c.ops {
            match *op {
                Nav::Decode(n) => {
                    dec(&mut codec, &mut vec![0.0; n as usize]);
                }
                Nav::Init => codec.init(),
                Nav::Seek0 => codec.seek(SeekFrom::Start(0)),
                Nav::Seek(ms) => codec.seek(SeekFrom::Start(ms)),
                Nav::Block(b) => codec.seek(SeekFrom::Start((b as u64 % (done as u64 + 1) * 1000) / s.rate as u64)),
                Nav::Frac(f) => codec.seek(SeekFrom::Start(duration_ms(done, s.rate) * f as u64 / 1000)),
            }
            expect(&codec, done, "after reading and seeking")?;
        }
        let mut loaded = load_adhoc(&save_adhoc(&codec)?)?;
        expect(&loaded, done, "after save and load")?;
        let out = play_all(&mut loaded, input.len(), 2000)?;
        ensure!(out.len() == done * ch, "{} samples decode, {} per channel reported", out.len(), done);
        expect(&loaded, done, "after decoding everything")
    }
}

// ------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09Case {
    s: Stream,
    ops: Vec<Nav>,
    retake: Option<Signal>,
    /// not `s` itself, but this many times its samples (level 0: in a WavCodec)
    #[serde(default)]
    times: Option<u32>,
}

pub struct C09;

fn check_bound(c: &AdhocCodec, when: &str) -> Result<(), String> {
    let bound = Streamable::filesize_upperbound(c);
    let real = save_adhoc(c)?.len() as u64 * 8;
    ensure!(bound >= real, "{}: the file takes {} bits, the upper bound says {}", when, real, bound);
    ensure!(
        bound <= real + real / 20 + 1024,
        "{}: the file takes {} bits, the upper bound {} is not tight",
        when, real, bound
    );
    Ok(())
}

fn check_bound_wav(c: &WavCodec, when: &str) -> Result<(), String> {
    let bound = Streamable::filesize_upperbound(c);
    let real = save_wav(c)?.len() as u64 * 8;
    ensure!(bound == real, "{}: the wav file takes {} bits, the bound says {}", when, real, bound);
    Ok(())
}

impl Prop for C09 {
    const ID: &'static str = "C09";
    type Case = C09Case;
    const RULE: &'static str = "a stream whose bound is compared with the real saved size while empty, during and after encoding, after reads/seeks, after load and after a shorter re-encode, and the same audio in a WavCodec; non-trivial = at least two encode calls";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 100_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C09Case> {
        (
            prop_oneof![30 => stream(Domain::Any, level(), true), 1 => wide_stream(Domain::Any, level())],
            prop::collection::vec(nav(), 0..=4),
            prop_oneof![2 => Just(None), 1 => signal(Domain::Any, 100).prop_map(Some)],
        )
            .prop_map(|(s, ops, retake)| C09Case { s, ops, retake, times: None })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C09Case> {
        let mut v: Vec<_> = directed_streams(0)
            .into_iter()
            .map(|s| C09Case { s, ops: vec![Nav::Decode(3), Nav::Frac(990)], retake: None, times: None })
            .collect();
        // every number of frames up to 300: the container overheads step at different counts
        v.push(C09Case { s: dir_stream(8000, 1, 0, vec![Seg::Noise { amp: 50, seed: 3, n: 900 }], vec![3]), ops: vec![], retake: None, times: None });
        // more bits than 32 bits can count: an hour of music
        for level in [0u32, 1] {
            v.push(C09Case {
                s: dir_stream(44_100, 2, level, vec![Seg::Noise { amp: 32_767, seed: 5, n: 65_000 }], vec![]),
                ops: vec![],
                retake: None,
                times: Some(2150),
            });
        }
        v
    }
    fn check(c: &C09Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let input = s.samples();
        if let Some(times) = c.times {
            pbt::engine::limit_case_allocation(6 << 30);
            pbt::engine::expect_long_case();
            obs.label("repeated stream");
            obs.nontrivial = true;
            if s.level == 0 {
                let mut wav = WavCodec::new(s.info());
                for _ in 0..times {
                    enc(&mut wav, &input);
                }
                return check_bound_wav(&wav, "after encoding");
            }
            let mut codec = s.empty_codec();
            for _ in 0..times {
                enc(&mut codec, &input);
            }
            return check_bound(&codec, "after encoding");
        }
        classify(s, obs);
        let mut codec = s.empty_codec();
        let mut wav = WavCodec::new(s.info());
        check_bound(&codec, "empty codec")?;
        check_bound_wav(&wav, "empty codec")?;
        let mut calls = 0u32;
        for call in s.calls(&input) {
            enc(&mut codec, call);
            enc(&mut wav, call);
            calls += 1;
            if calls < 40 || calls % 61 == 0 || (input.len() < 4000 && calls < 400) {
                check_bound(&codec, "while encoding")?;
                obs.sub_executions += 1;
            }
        }
        check_bound(&codec, "after encoding")?;
        check_bound_wav(&wav, "after encoding")?;
        codec.init();
        for op in &c.ops {
            match *op {
                Nav::Decode(n) => {
                    dec(&mut codec, &mut vec![0.0; n as usize]);
                    dec(&mut wav, &mut vec![0.0; n as usize]);
                }
                Nav::Init => codec.init(),
                Nav::Seek0 => {
                    codec.seek(SeekFrom::Start(0));
                    // over the old samples, and maybe beyond them
                    wav.seek(SeekFrom::Start(0));
                    enc(&mut wav, &input[..input.len().min(3 * ch)]);
                }
                Nav::Seek(ms) => codec.seek(SeekFrom::Start(ms)),
                Nav::Block(b) => codec.seek(SeekFrom::Start(b as u64 % 5000)),
                Nav::Frac(f) => {
                    let ms = duration_ms(input.len() / ch, s.rate) * f as u64 / 1000;
                    codec.seek(SeekFrom::Start(ms));
                    wav.seek(SeekFrom::Start(ms));
                    enc(&mut wav, &input[..input.len().min(100 * ch)]);
                }
            }
            check_bound(&codec, "after reading and seeking")?;
            check_bound_wav(&wav, "after reading, seeking and overwriting")?;
        }
        let mut loaded = load_adhoc(&save_adhoc(&codec)?)?;
        check_bound(&loaded, "after load")?;
        play_all(&mut loaded, input.len(), 1024)?;
        check_bound(&loaded, "after decoding everything")?;
        check_bound_wav(&load_wav(&save_wav(&wav)?)?, "after load")?;
        if let Some(sig) = &c.retake {
            obs.label("re-encode");
            loaded.init();
            let again = sig.expand(ch);
            enc(&mut loaded, &again);
            check_bound(&loaded, "after re-encoding")?;
        }
        obs.nontrivial = calls >= 2;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C14

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub enum Setup {
    LevelThenInfo,
    InfoThenLevel,
    SetInfo,
    Twice,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14Case {
    a: Stream,
    b: Stream,
    setup_a: Setup,
    setup_b: Setup,
    threads: bool,
}

pub struct C14;

fn setup(s: &Stream, how: Setup) -> AdhocCodec {
    match how {
        Setup::LevelThenInfo => AdhocCodec::new().with_compression_level(s.level).with_info(s.info()),
        Setup::InfoThenLevel => AdhocCodec::new().with_info(s.info()).with_compression_level(s.level),
        Setup::SetInfo => {
            let mut c = AdhocCodec::new().with_compression_level(s.level);
            c.set_info(s.info());
            c
        }
        Setup::Twice => {
            let mut c = AdhocCodec::new()
                .with_compression_level(10 - s.level.min(10))
                .with_info(StreamInfo::new(s.rate, s.ch + 1))
                .with_compression_level(s.level);
            c.set_info(s.info());
            c
        }
    }
}

fn run_alone(s: &Stream, how: Setup) -> Result<(Vec<u8>, Vec<f32>), String> {
    let input = s.samples();
    let mut c = setup(s, how);
    for call in s.calls(&input) {
        enc(&mut c, call);
    }
    let bytes = save_adhoc(&c)?;
    c.init();
    let out = play_all(&mut c, input.len(), 1024)?;
    Ok((bytes, out))
}

impl Prop for C14 {
    const ID: &'static str = "C14";
    type Case = C14Case;
    const RULE: &'static str = "two streams and two configuration orders; each encoded alone, then call-by-call interleaved with a twin and with the other stream on one thread, then by up to six codecs on concurrent threads; files and decoded audio must be identical; non-trivial = both streams have at least 8 samples and two calls";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 100_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C14Case> {
        let how = || prop_oneof![Just(Setup::LevelThenInfo), Just(Setup::InfoThenLevel), Just(Setup::SetInfo), Just(Setup::Twice)];
        // mostly streams of several calls
        let several = || {
            (stream(Domain::Any, level(), false), 0u8..8).prop_map(|(mut s, k)| {
                let blocks = s.sig.blocks(s.ch as usize);
                if k > 0 && blocks >= 2 && s.cuts.first().map_or(true, |&n| n as usize >= blocks) {
                    s.cuts = vec![(blocks as u32 / 2).max(1), 1 + blocks as u32 / 5];
                }
                s
            })
        };
        (
            several(),
            several(),
            how(),
            how(),
            prop::bool::weighted(0.4),
        )
            .prop_map(|(a, b, setup_a, setup_b, threads)| C14Case { a, b, setup_a, setup_b, threads })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C14Case> {
        // long frames and many frames next to each other
        let all: Vec<Stream> = [0u32, 5].into_iter().flat_map(directed_streams).filter(|s| s.sig.blocks(s.ch as usize) <= 200_000).collect();
        let n = all.len();
        (0..n)
            .step_by(5)
            .map(|i| C14Case {
                a: all[i].clone(),
                b: all[(i * 7 + 3) % n].clone(),
                setup_a: Setup::Twice,
                setup_b: Setup::SetInfo,
                threads: true,
            })
            .collect()
    }
    fn check(c: &C14Case, obs: &mut Obs) -> Result<(), String> {
        classify(&c.a, obs);
        let alone_a = run_alone(&c.a, Setup::LevelThenInfo)?;
        let alone_b = run_alone(&c.b, Setup::LevelThenInfo)?;
        for (s, how, want, name) in [(&c.a, c.setup_a, &alone_a, "a"), (&c.b, c.setup_b, &alone_b, "b")] {
            let got = run_alone(s, how)?;
            ensure!(got.0 == want.0, "stream {} configured by {:?} gives another file", name, how);
            if let Some(d) = first_diff(&got.1, &want.1) {
                return Err(format!("stream {} configured by {:?} decodes differently: {}", name, how, d));
            }
        }
        // interleaved on one thread: a, b, and a twin of a
        let (ia, ib) = (c.a.samples(), c.b.samples());
        let (ca, cb) = (c.a.calls(&ia), c.b.calls(&ib));
        let (mut a1, mut a2, mut b1) = (setup(&c.a, c.setup_a), setup(&c.a, Setup::InfoThenLevel), setup(&c.b, c.setup_b));
        for i in 0..ca.len().max(cb.len()) {
            if let Some(x) = ca.get(i) {
                enc(&mut a1, x);
            }
            if let Some(x) = cb.get(i) {
                enc(&mut b1, x);
            }
            if let Some(x) = ca.get(i) {
                enc(&mut a2, x);
            }
        }
        ensure!(save_adhoc(&a1)? == alone_a.0, "interleaved encoding changes stream a");
        ensure!(save_adhoc(&a2)? == alone_a.0, "interleaved encoding changes the twin of stream a");
        ensure!(save_adhoc(&b1)? == alone_b.0, "interleaved encoding changes stream b");
        // interleaved decoding
        a1.init();
        b1.init();
        a2.init();
        let (mut oa, mut ob, mut o2) = (Vec::new(), Vec::new(), Vec::new());
        let mut buf = vec![0.0f32; 256.max(c.a.ch as usize).max(c.b.ch as usize)];
        loop {
            let n = dec(&mut a1, &mut buf).unwrap_or(0);
            oa.extend_from_slice(&buf[..n]);
            let m = dec(&mut b1, &mut buf).unwrap_or(0);
            ob.extend_from_slice(&buf[..m]);
            let k = dec(&mut a2, &mut buf[..100.max(c.a.ch as usize)]).unwrap_or(0);
            o2.extend_from_slice(&buf[..k]);
            if n + m + k == 0 || oa.len() > ia.len() + 5000 || ob.len() > ib.len() + 5000 {
                break;
            }
        }
        for (got, want, name) in [(&oa, &alone_a.1, "a"), (&ob, &alone_b.1, "b"), (&o2, &alone_a.1, "twin")] {
            if let Some(d) = first_diff(got, want) {
                return Err(format!("interleaved decoding changes stream {}: {}", name, d));
            }
        }
        if c.threads {
            obs.label("threads");
            let results: Vec<Result<(Vec<u8>, Vec<f32>), String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..6)
                    .map(|i| {
                        let s = if i % 2 == 0 { &c.a } else { &c.b };
                        sc.spawn(move || pbt::engine::guarded(|| run_alone(s, Setup::LevelThenInfo)).and_then(|r| r))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            });
            for (i, r) in results.into_iter().enumerate() {
                let want = if i % 2 == 0 { &alone_a } else { &alone_b };
                let r = r?;
                ensure!(r.0 == want.0, "concurrent encoding changes the file of stream {}", i % 2);
                if let Some(d) = first_diff(&r.1, &want.1) {
                    return Err(format!("concurrent decoding changes stream {}: {}", i % 2, d));
                }
            }
            obs.sub_executions += 6;
        }
        obs.nontrivial = ia.len() >= 8 && ib.len() >= 8 && ca.len() >= 2 && cb.len() >= 2;
        Ok(())
    }
}
