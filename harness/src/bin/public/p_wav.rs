//! C15, C16 and C18: the WAV codec.
use crate::codecs::*;
use crate::p_adhoc::{dir_stream, directed_streams, scale_cases};
use adhoc_audio::{SeekFrom, StreamInfo, Streamable, WavCodec};
use pbt::engine::{Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use pbt::wavref::{parse_strict, Chunk, WavFile};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// The decoded value of a stored 16-bit sample, up to f32 rounding.
fn is_unit(x: f32, v: i16) -> bool {
    (x as f64 * 32767.0 - v as f64).abs() < 0.01
}

fn check_units(out: &[f32], want: &[i16], what: &str) -> Result<(), String> {
    for (i, (&x, &v)) in out.iter().zip(want).enumerate() {
        ensure!(is_unit(x, v), "{}: sample {} is {} but the file holds {} ({})", what, i, x, v, v as f64 / 32767.0);
    }
    ensure!(out.len() == want.len(), "{}: {} samples decode, the file holds {}", what, out.len(), want.len());
    Ok(())
}

// ------------------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C15Case {
    s: Stream,
    /// trailing samples that make no complete block, per call
    ragged: u8,
    buf: u32,
}

pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    type Case = C15Case;
    const RULE: &'static str = "any f32 signal, 1-1500 channels (up to 32767, all that the block align field can express, in rare short streams), any rate (rarely beyond 384 kHz, up to all of u32), fed in calls that may end in a partial block; the saved file is parsed by an independent strict parser, loaded, decoded and saved again; non-trivial = at least 8 samples not all equal";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 500_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C15Case> {
        (
            prop_oneof![
                60 => stream(Domain::Any, Just(0).boxed(), true),
                2 => wide_stream(Domain::Any, Just(0).boxed()),
                // the header's channel fields near their limits
                1 => (rate(), prop_oneof![1500u32..=32_767, 16_383u32..=16_385, 32_766u32..=32_767],
                      prop::collection::vec(seg(Domain::Unit, 2), 0..=1))
                    .prop_map(|(rate, ch, segs)| Stream {
                        rate, ch, level: 0, sig: Signal { segs, frac: 0, mono: false, mute: 0 }, cuts: vec![1],
                    }),
            ],
            any::<u8>(),
            prop_oneof![Just(1024u32), 1u32..3000],
        )
            .prop_map(|(s, ragged, buf)| C15Case { s, ragged, buf })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C15Case> {
        let mut v: Vec<_> = directed_streams(0)
            .into_iter()
            .enumerate()
            .map(|(i, s)| C15Case { s, ragged: i as u8, buf: 1024 })
            .collect();
        for rate in [1u32, 8000, 11_025, 44_100, 65_535, 65_536, 96_000, 192_000, 384_000] {
            for ch in [1u32, 2, 127, 128, 255, 256] {
                v.push(C15Case { s: dir_stream(rate, ch, 0, vec![Seg::Noise { amp: 999, seed: 3, n: 5 }], vec![2]), ragged: 1, buf: 700 });
            }
        }
        // every 16-bit value
        for lo in [-32_768i32, 0] {
            let vals: Vec<i16> = (lo..lo + 32_768).map(|x| x as i16).collect();
            v.push(C15Case { s: dir_stream(44_100, 1, 0, vec![Seg::Raw(vals)], vec![1000]), ragged: 0, buf: 4096 });
        }
        v
    }
    fn check(c: &C15Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let input = s.samples();
        classify(s, obs);
        obs.nontrivial = input.len() >= 8 && input.iter().any(|x| x.to_bits() != input[0].to_bits());
        let mut w = WavCodec::new(s.info());
        let ragged = c.ragged as usize % ch;
        obs.label_if(ragged > 0, "calls ending in a partial block");
        for call in s.calls(&input) {
            let mut call = call.to_vec();
            call.extend(std::iter::repeat(0.77).take(ragged));
            enc(&mut w, &call);
        }
        let bytes = save_wav(&w)?;
        let (fch, frate, units) = parse_strict(&bytes).map_err(|e| format!("the saved file is not a well-formed 16-bit WAV: {}", e))?;
        ensure!(fch as u32 == s.ch && frate == s.rate, "the saved file says {} channels, {} Hz for {} channels, {} Hz", fch, frate, s.ch, s.rate);
        ensure!(units.len() == input.len(), "{} samples in the file, {} encoded", units.len(), input.len());
        for (i, (&x, &u)) in input.iter().zip(&units).enumerate() {
            if !x.is_nan() {
                let d = (x.clamp(-1.0, 1.0) as f64 * 32767.0 - u as f64).abs();
                ensure!(d <= 1.005, "sample {}: {} is stored as {}", i, x, u);
                if let Some(v) = exact_unit(x) {
                    ensure!(u == v, "sample {}: the 16-bit value {} is stored as {}", i, v, u);
                }
            }
        }
        // what the codec itself plays
        w.seek(SeekFrom::Start(0));
        let own = decode_rest(&mut w, c.buf as usize, input.len())?;
        check_units(&own, &units, "the codec that was saved")?;
        ensure!(save_wav(&w)? == bytes, "saving again after playing writes other bytes");
        // what a loaded one plays
        let mut l = load_wav(&bytes)?;
        check_info(&l, s.info())?;
        let out = decode_rest(&mut l, c.buf as usize, input.len())?;
        if let Some(d) = first_diff(&out, &own) {
            return Err(format!("the loaded file decodes differently: {}", d));
        }
        ensure!(save_wav(&l)? == bytes, "saving a loaded file writes other bytes");
        // what was decoded is stored as it was, once more
        let mut again = WavCodec::new(s.info());
        enc(&mut again, &out);
        ensure!(save_wav(&again)? == bytes, "encoding what a file decodes to gives another file");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16Case {
    file: WavFile,
    buf: u32,
    /// one of the three magic ids (and one of its letters) is wrong
    #[serde(default)]
    magic: Option<(u8, u8)>,
}

pub struct C16;

const IDS: [&[u8; 4]; 8] = [b"LIST", b"fact", b"bext", b"JUNK", b"cue ", b"id3 ", b"PEAK", b"DATA"];

fn chunk(max: usize) -> BoxedStrategy<Chunk> {
    (
        prop_oneof![5 => prop::sample::select(IDS.to_vec()).prop_map(|x| *x), 1 => any::<[u8; 4]>()],
        prop_oneof![
            2 => prop::collection::vec(any::<u8>(), 0..=max),
            1 => prop::collection::vec(any::<u8>(), 0..=max.min(5)),
            1 => (0usize..=max.saturating_sub(8), any::<u32>()).prop_map(|(n, sz)| {
                // the data tag inside another chunk
                let mut v = vec![b'x'; n];
                v.extend(b"data");
                v.extend(sz.to_le_bytes());
                v
            }),
        ],
    )
        .prop_map(|(mut id, body)| {
            if &id == b"data" || &id == b"fmt " {
                id = *b"LIST";
            }
            Chunk { id, body }
        })
        .boxed()
}

fn data_offset(f: &WavFile) -> usize {
    let padded = |n: usize| 8 + n + n % 2;
    12 + padded(16 + f.fmt_extra.len()) + f.before.iter().map(|c| padded(c.body.len())).sum::<usize>()
}

pub fn wav_file() -> BoxedStrategy<WavFile> {
    (
        (
            prop_oneof![20 => Just(1u16), 1 => prop::sample::select(vec![0u16, 2, 3, 6, 7, 0x55, 0xFFFE]), 1 => any::<u16>()],
            prop_oneof![6 => 1u16..=8, 1 => 1u16..=300, 1 => any::<u16>().prop_map(|c| c.max(1))],
            prop_oneof![6 => rate(), 1 => any::<u32>().prop_map(|r| r.max(1))],
            prop_oneof![12 => Just(16u16), 12 => Just(8u16), 1 => prop::sample::select(vec![0u16, 1, 4, 12, 20, 24, 32, 64]), 1 => any::<u16>()],
        ),
        prop_oneof![
            3 => Just(vec![]),
            2 => Just(vec![0u8, 0]),
            1 => prop::collection::vec(any::<u8>(), 22).prop_map(|mut v| { v[0] = 22; v[1] = 0; v }),
        ],
        prop_oneof![
            4 => Just(vec![]),
            4 => prop::collection::vec(chunk(40), 1..=4),
            2 => prop::collection::vec(chunk(300), 1..=2),
            1 => prop::collection::vec(chunk(6000), 1..=2),
        ],
        prop_oneof![
            1 => Just(vec![]),
            2 => prop::collection::vec(any::<u8>(), 0..=12),
            3 => prop::collection::vec(any::<u8>(), 0..=600),
            1 => (0usize..6000, any::<u8>()).prop_map(|(n, k)| (0..n).map(|i| mix(i as u64, k as u64, 5) as u8).collect()),
            1 => (0usize..40).prop_map(|n| b"data\x04\x00\x00\x00".iter().copied().cycle().take(n * 8).collect()),
        ],
        prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(chunk(60), 1..=3)],
    )
        .prop_map(|((format, channels, rate, bits), fmt_extra, before, mut data, after)| {
            // now and then the last block is cut short
            let align = if bits == 16 { 2 * channels as usize } else { channels as usize };
            if rate % 8 != 5 {
                data.truncate(data.len() / align * align);
            }
            WavFile { format, channels, rate, bits, fmt_extra, before, data, after }
        })
        .boxed()
}

impl Prop for C16 {
    const ID: &'static str = "C16";
    type Case = C16Case;
    const RULE: &'static str = "a WAV file from an independent writer: fmt chunk of 16, 18 or 40 bytes, 0-4 (directed: to 66000) chunks of up to 6000 bytes before (some containing the bytes `data`) and 0-3 after the data chunk, odd sizes with padding, 8 or 16 bits, 1-65535 channels, 0-6000 data bytes (the last block sometimes cut short), and a share of other formats, sample sizes and magic ids that must be rejected; non-trivial = PCM with at least 8 bytes of data, or a file to reject";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 800_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C16Case> {
        (wav_file(), 1u32..3000, prop_oneof![20 => Just(None), 1 => (0u8..3, 0u8..4).prop_map(Some)])
            .prop_map(|(file, buf, magic)| C16Case { file, buf, magic })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C16Case> {
        let mut v = Vec::new();
        let base = |bits: u16, channels: u16, data: Vec<u8>| WavFile {
            format: 1, channels, rate: 44_100, bits, fmt_extra: vec![], before: vec![], data, after: vec![],
        };
        // all 8-bit values; all lengths up to 120 bytes; all positions of the data chunk
        v.push(base(8, 1, (0..=255).collect()));
        v.push(base(8, 2, (0..=255).rev().collect()));
        v.push(base(16, 1, (0..=65_535u32).flat_map(|x| (x as u16).to_le_bytes()).collect()));
        for bits in [8u16, 16] {
            for n in 0..120usize {
                let mut f = base(bits, 1, (0..n * bits as usize / 8).map(|i| mix(i as u64, n as u64, 1) as u8).collect());
                v.push(f.clone());
                f.after.push(Chunk { id: *b"LIST", body: vec![1, 2, 3] });
                v.push(f);
            }
            // the data chunk at every offset, at offsets beyond 16 bits, and (once) beyond 24 bits
            let large = if bits == 16 { (1 << 24) + 0x12_3456 } else { 77_777 };
            for n in (0..=600usize).chain([4095, 65_530, 65_535, 65_536, 70_000, large]) {
                let mut f = base(bits, 2, (0..40).map(|i| mix(i, n as u64, 2) as u8).collect());
                f.before.push(Chunk { id: *b"LIST", body: vec![b'd'; n] });
                v.push(f);
            }
            // many chunks
            for n in [8usize, 9, 16, 17, 33, 64, 65, 100, 255, 256, 257, 1000, 1025, 5000, 66_000] {
                let mut f = base(bits, 1, (0..50).map(|i| mix(i, n as u64, 4) as u8).collect());
                f.before = (0..n).map(|k| Chunk { id: *IDS[k % IDS.len()], body: vec![b'd'; k * 7 % 5] }).collect();
                f.after = (0..n % 300).map(|k| Chunk { id: *IDS[k % IDS.len()], body: vec![b'd'; k * 3 % 5] }).collect();
                v.push(f);
            }
            // lengths that need more than 16 bits, behind and before other chunks
            for n in [65_534usize, 65_536, 140_000] {
                let mut f = base(bits, 2, (0..n).map(|i| mix(i as u64, 77, 3) as u8).collect());
                f.before.push(Chunk { id: *b"LIST", body: vec![b'd'; 3] });
                f.after.push(Chunk { id: *b"LIST", body: vec![b'd'; 300] });
                v.push(f);
            }
        }
        let mut v: Vec<_> = v.into_iter().map(|file| C16Case { file, buf: 1024, magic: None }).collect();
        for id in 0..3 {
            for letter in 0..4 {
                v.push(C16Case { file: base(16, 1, vec![1; 64]), buf: 64, magic: Some((id, letter)) });
            }
        }
        v
    }
    fn check(c: &C16Case, obs: &mut Obs) -> Result<(), String> {
        let f = &c.file;
        let mut bytes = f.to_bytes();
        if let Some((id, letter)) = c.magic {
            bytes[[0, 8, 12][id as usize % 3] + letter as usize % 4] ^= 0x01;
        }
        let loaded = WavCodec::load(std::io::Cursor::new(&bytes[..]));
        if c.magic.is_some() {
            obs.label("not RIFF, WAVE or fmt");
            obs.nontrivial = true;
            ensure!(loaded.is_err(), "a file that starts with {:?} is accepted", String::from_utf8_lossy(&bytes[..16]));
            return Ok(());
        }
        if f.format != 1 || (f.bits != 8 && f.bits != 16) {
            obs.label("not PCM, or not 8 or 16 bits");
            obs.nontrivial = true;
            ensure!(loaded.is_err(), "a file with format {} and {} bits per sample is accepted", f.format, f.bits);
            return Ok(());
        }
        obs.label(if f.bits == 8 { "8 bit" } else { "16 bit" });
        obs.label_if(!f.before.is_empty(), "chunks before the data");
        obs.label_if(!f.after.is_empty(), "chunks after the data");
        obs.label_if(f.data.is_empty(), "no data");
        obs.label_if(data_offset(f) > 256, "data beyond byte 256");
        obs.label_if(f.before.iter().any(|c| c.body.windows(4).any(|w| w == b"data")), "data tag inside another chunk");
        obs.nontrivial = f.data.len() >= 8;
        let mut w = loaded.map_err(|e| format!("a PCM file of {} bits with {} bytes of data is rejected: {}", f.bits, f.data.len(), e))?;
        check_info(&w, StreamInfo::new(f.rate, f.channels as u32))?;
        // a block that was cut short is no audio
        let n = if f.bits == 16 { f.data.len() / 2 } else { f.data.len() };
        let ch = f.channels as usize;
        obs.label_if(n % ch != 0 || (f.bits == 16 && f.data.len() % 2 == 1), "last block cut short");
        let n = n / ch * ch;
        let out = decode_rest(&mut w, c.buf as usize, n + bytes.len())?;
        ensure!(out.len() == n, "{} samples decode, the data chunk holds {}", out.len(), n);
        if f.bits == 16 {
            let units: Vec<i16> = f.data.chunks_exact(2).take(n).map(|p| i16::from_le_bytes([p[0], p[1]])).collect();
            check_units(&out, &units, "16-bit import")
        } else {
            let mut table = [f32::NAN; 256];
            for (i, (&x, &b)) in out.iter().zip(&f.data).enumerate() {
                let lin = b as f32 / 127.5 - 1.0;
                ensure!((x - lin).abs() < 3.0 * STEP, "8-bit import: sample {} with value {} decodes as {} instead of about {}", i, b, x, lin);
                let t = &mut table[b as usize];
                ensure!(t.is_nan() || *t == x, "8-bit import: value {} decodes as {} and as {}", b, *t, x);
                *t = x;
            }
            let mut last = f32::NEG_INFINITY;
            for (b, &x) in table.iter().enumerate().filter(|(_, x)| !x.is_nan()) {
                ensure!(x > last, "8-bit import: value {} decodes as {}, not above {}", b, x, last);
                last = x;
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tape {
    /// values in 16-bit units; the length need not be whole blocks
    Encode(Vec<i16>),
    /// a longer run of noise: blocks, seed
    Run(u32, u16),
    Decode(u32),
    Start(u64),
    /// to the first millisecond at or after this block (wrapped to a little beyond the end)
    Block(u32),
    Current(i64),
    End(i64),
    /// save and load: position 0
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18Case {
    rate: u32,
    ch: u32,
    ops: Vec<(Tape, bool)>,
}

pub struct C18;

fn wide_i64() -> BoxedStrategy<i64> {
    prop_oneof![
        6 => -60i64..=60,
        3 => -3000i64..=3000,
        1 => any::<i64>(),
        1 => prop::sample::select(vec![i64::MIN, i64::MIN + 1, i64::MAX, 0, -1, 1, 1 << 40, -(1 << 40)]),
    ]
    .boxed()
}

/// Lowest and highest block a seek by `ms` from block `base` may reach, before clamping.
fn tape_window(base: i128, ms: i128, rate: u32, total: i128) -> (i128, i128) {
    let num = ms * rate as i128;
    let exact = num / 1000; // towards zero
    let slack = (rate % 1000 != 0) as i128;
    ((base + exact - slack).clamp(0, total), (base + exact + slack).clamp(0, total))
}

impl Prop for C18 {
    const ID: &'static str = "C18";
    type Case = C18Case;
    const RULE: &'static str = "1-14 (rarely hundreds of) operations on a WavCodec: encode (whole or ragged slices, short or long), decode n, seek from start/current/end by generated millisecond distances including extremes, save+load; after each seek the position is found by decoding the rest and must be a block boundary in the allowed window; model = sample array with a position; non-trivial = an encode over existing samples or a seek strictly inside the stream";
    const ASSUMPTIONS: &'static [&'static str] = &["allowed landing window: exact for whole-kHz rates, otherwise one block either way"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 500_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C18Case> {
        let op = prop_oneof![
            40 => prop::collection::vec(i16_edge(), 0..=40).prop_map(Tape::Encode),
            20 => (0u32..=600, any::<u16>()).prop_map(|(n, s)| Tape::Run(n, s)),
            1 => (round_size(70_000), any::<u16>()).prop_map(|(n, s)| Tape::Run(n, s)),
            30 => prop_oneof![0u32..=30, 0u32..=2000].prop_map(Tape::Decode),
            1 => round_size(140_000).prop_map(Tape::Decode),
            10 => prop_oneof![4 => 0u64..=60, 2 => 0u64..=3000, 1 => any::<u64>(), 1 => Just(u64::MAX)].prop_map(Tape::Start),
            40 => any::<u32>().prop_map(Tape::Block),
            30 => wide_i64().prop_map(Tape::Current),
            30 => wide_i64().prop_map(Tape::End),
            10 => Just(Tape::Reload),
        ];
        let short = |encode: u32, decode: u32, seek: u32| {
            prop_oneof![
                encode * 6 => prop::collection::vec(i16_edge(), 0..=12).prop_map(Tape::Encode),
                decode * 6 => (0u32..=30).prop_map(Tape::Decode),
                seek * 2 => any::<u32>().prop_map(Tape::Block),
                seek * 2 => (-60i64..=60).prop_map(Tape::Current),
                seek * 2 => (-60i64..=60).prop_map(Tape::End),
            ]
        };
        let many = |op: BoxedStrategy<Tape>| prop::collection::vec((op, any::<bool>()), LONG);
        let long = prop_oneof![
            1 => many(short(1, 1, 1).boxed()),
            1 => many(short(10, 1, 1).boxed()),
            1 => many(short(1, 10, 1).boxed()),
            1 => many(short(1, 1, 10).boxed()),
            1 => many(prop_oneof![4 => short(1, 1, 1), 1 => Just(Tape::Reload)].boxed()),
        ];
        (
            prop_oneof![3 => slow_rate(), 2 => rate()],
            channels(),
            prop_oneof![300 => prop::collection::vec((op, any::<bool>()), 1..=14), 1 => long],
        )
            .prop_map(|(rate, ch, ops)| C18Case { rate, ch, ops })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C18Case> {
        let mut v = Vec::new();
        for ch in [1u32, 2, 3, 6] {
            for rate in [1000u32, 44_100] {
                let per = if rate == 1000 { 1 } else { 3 };
                let mut ops = vec![(Tape::Start(5), true), (Tape::End(-5), true), (Tape::Current(3), true), (Tape::Run(200, 3), true)];
                for k in 0..=7i64 {
                    ops.push((Tape::End(-k * per), k % 2 == 0));
                    ops.push((Tape::Decode(ch * k as u32), true));
                    ops.push((Tape::Current(-2 * per), true));
                    ops.push((Tape::Current(per), true));
                    ops.push((Tape::Block(k as u32 * 31), k % 2 == 1));
                    ops.push((Tape::Encode(vec![k as i16 * 100 + 7; 2 * ch as usize + 1]), true));
                }
                ops.push((Tape::Reload, true));
                ops.push((Tape::End(i64::MIN), true));
                ops.push((Tape::Current(i64::MAX), true));
                ops.push((Tape::Start(u64::MAX), true));
                ops.push((Tape::Encode(vec![5; 3 * ch as usize]), true));
                v.push(C18Case { rate, ch, ops });
            }
        }
        // more blocks than f32 can count
        for (rate, ms) in [(47_000u32, 357_447i64), (44_100, 390_011), (11_025, 1_590_007)] {
            let mut ops = vec![(Tape::Run(17_600_000, 1), false)];
            for k in 0..4 {
                ops.push((Tape::Start(ms as u64 + k * 7), true));
                ops.push((Tape::End(-7 * k as i64), false));
                ops.push((Tape::Current(-13), true));
                ops.push((Tape::End(-ms), false));
                ops.push((Tape::Current(ms - k as i64), false));
                ops.push((Tape::Encode(vec![1, 2, 3]), false));
            }
            v.push(C18Case { rate, ch: 1, ops });
        }
        v
    }
    fn check(c: &C18Case, obs: &mut Obs) -> Result<(), String> {
        let ch = c.ch as usize;
        let info = StreamInfo::new(c.rate, c.ch);
        let mut w = WavCodec::new(info);
        let mut tape: Vec<f32> = Vec::new();
        let mut pos = 0usize;
        for (i, (op, again)) in c.ops.iter().enumerate() {
            let here = |m: String| format!("operation {} ({:?}) at {} of {} samples: {}", i, op, pos, tape.len(), m);
            let total = (tape.len() / ch) as i128;
            let (from, base, ms) = match op {
                Tape::Encode(_) | Tape::Run(..) => {
                    let xs: Vec<f32> = match op {
                        Tape::Encode(v) => v.iter().map(|&u| u as f32 * STEP).collect(),
                        Tape::Run(n, seed) => (0..*n as u64 * ch as u64)
                            .map(|k| (mix(*seed as u64, k, 9) % 65_535) as f32 * STEP - 1.0)
                            .collect(),
                        _ => unreachable!(),
                    };
                    let whole = xs.len() / ch * ch;
                    let got = enc(&mut w, &xs);
                    ensure!(got == Some(whole), "{}", here(format!("encode of {} samples returned {:?}", xs.len(), got)));
                    let stored = through_wav(&xs[..whole], info)?;
                    ensure!(stored.len() == whole, "a fresh codec keeps {} of {} samples", stored.len(), whole);
                    check_exact(&xs[..whole], &stored)?;
                    if whole > 0 && pos < tape.len() {
                        obs.nontrivial = true;
                        obs.label("encode over existing samples");
                        obs.label_if(pos + whole > tape.len(), "encode across the end");
                    }
                    let end = (pos + whole).max(tape.len());
                    tape.resize(end, 0.0);
                    tape[pos..pos + whole].copy_from_slice(&stored);
                    pos += whole;
                    continue;
                }
                Tape::Decode(n) => {
                    let mut buf = vec![9.0f32; *n as usize];
                    let got = dec(&mut w, &mut buf);
                    let want = (buf.len() / ch * ch).min(tape.len() - pos);
                    ensure!(got == (want > 0).then_some(want), "{}", here(format!("decode returned {:?} instead of {}", got, want)));
                    if let Some(d) = first_diff(&buf[..want], &tape[pos..pos + want]) {
                        return Err(here(format!("decode yields {}", d)));
                    }
                    pos += want;
                    continue;
                }
                Tape::Reload => {
                    w = load_wav(&save_wav(&w)?)?;
                    pos = 0;
                    continue;
                }
                Tape::Start(ms) => (SeekFrom::Start(*ms), 0, *ms as i128),
                Tape::Block(b) => {
                    let b = *b as u64 % (total as u64 + 3);
                    let ms = (b * 1000).div_ceil(c.rate as u64);
                    (SeekFrom::Start(ms), 0, ms as i128)
                }
                Tape::Current(ms) => (SeekFrom::Current(*ms), (pos / ch) as i128, *ms as i128),
                Tape::End(ms) => (SeekFrom::End(*ms), total, *ms as i128),
            };
            obs.label(match from {
                SeekFrom::Start(_) => "seek from start",
                SeekFrom::Current(_) => "seek from current",
                SeekFrom::End(_) => "seek from end",
            });
            w.seek(from);
            let rest = decode_rest(&mut w, 1024, tape.len() + 64).map_err(here)?;
            ensure!(rest.len() <= tape.len() && rest.len() % ch == 0, "{}", here(format!("{} samples decode afterwards", rest.len())));
            let landed = tape.len() - rest.len();
            let (lo, hi) = tape_window(base, ms, c.rate, total);
            let block = (landed / ch) as i128;
            ensure!(lo <= block && block <= hi, "{}", here(format!("landed on block {}, expected {}..={}", block, lo, hi)));
            if let Some(d) = first_diff(&rest, &tape[landed..]) {
                return Err(here(format!("afterwards playback yields {}", d)));
            }
            if block > 0 && block < total {
                obs.nontrivial = true;
                obs.label("landed inside");
            }
            // back to where the seek landed: by the same seek, or by reading up to it
            match from {
                SeekFrom::Current(_) => {
                    w.seek(SeekFrom::Start(0));
                    dec(&mut w, &mut vec![0.0; landed]);
                }
                _ if *again => w.seek(from),
                _ => {
                    w.seek(SeekFrom::Start(0));
                    dec(&mut w, &mut vec![0.0; landed]);
                }
            }
            pos = landed;
        }
        // the rest of the tape, then the whole of it through a file
        let rest = decode_rest(&mut w, 4096, tape.len() + 64)?;
        if let Some(d) = first_diff(&rest, &tape[pos..]) {
            return Err(format!("the remainder after the last operation differs: {}", d));
        }
        let mut l = load_wav(&save_wav(&w)?)?;
        let all = decode_rest(&mut l, 4096, tape.len() + 64)?;
        if let Some(d) = first_diff(&all, &tape) {
            return Err(format!("the saved tape differs: {}", d));
        }
        Ok(())
    }
}
