//! Shared helpers around the codecs under test.
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable, WavCodec};
use pbt::gen::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

/// A complete description of one encoded stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    pub rate: u32,
    pub ch: u32,
    pub level: u32,
    pub sig: Signal,
    pub cuts: Cuts,
}

impl Stream {
    pub fn info(&self) -> StreamInfo {
        StreamInfo::new(self.rate, self.ch)
    }
    pub fn samples(&self) -> Vec<f32> {
        self.sig.expand(self.ch as usize)
    }
    pub fn empty_codec(&self) -> AdhocCodec {
        AdhocCodec::new()
            .with_compression_level(self.level)
            .with_info(self.info())
    }
    /// the encode calls of this stream, as slices of `samples`
    pub fn calls<'a>(&self, samples: &'a [f32]) -> Vec<&'a [f32]> {
        let ch = self.ch as usize;
        let mut at = 0;
        pieces(samples.len() / ch, &self.cuts)
            .into_iter()
            .map(|n| {
                let s = &samples[at..at + n * ch];
                at += n * ch;
                s
            })
            .collect()
    }
    pub fn build(&self, samples: &[f32]) -> AdhocCodec {
        let mut c = self.empty_codec();
        for call in self.calls(samples) {
            enc(&mut c, call);
        }
        c
    }
}

pub fn enc<S: Streamable>(c: &mut S, samples: &[f32]) -> Option<usize> {
    Streamable::encode(c, samples)
}

pub fn dec<S: Streamable>(c: &mut S, buf: &mut [f32]) -> Option<usize> {
    Streamable::decode(c, buf)
}

pub fn rewind_init(c: &mut AdhocCodec) {
    c.init();
}

pub fn rewind_seek<S: Streamable>(c: &mut S) {
    c.seek(SeekFrom::Start(0));
}

/// Decodes from the current position to the end with buffers of `buf_len` samples; gives up
/// (with an error) once more than `max` samples have come out.
pub fn decode_rest<S: Streamable>(c: &mut S, buf_len: usize, max: usize) -> Result<Vec<f32>, String> {
    let ch = Streamable::info(c).channels();
    let mut buf = vec![0.0f32; buf_len.max(ch)];
    let mut out = Vec::new();
    while let Some(n) = dec(c, &mut buf) {
        if n == 0 || n > buf.len() {
            return Err(format!("decode returned Some({}) for a buffer of {}", n, buf.len()));
        }
        out.extend_from_slice(&buf[..n]);
        if out.len() > max {
            return Err(format!("decode keeps returning samples ({} of at most {})", out.len(), max));
        }
    }
    Ok(out)
}

pub fn save_adhoc(c: &AdhocCodec) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    c.save_to(&mut v).ok_or("save_to failed on a Vec")?;
    Ok(v)
}

pub fn load_adhoc(b: &[u8]) -> Result<AdhocCodec, String> {
    AdhocCodec::load(b).ok_or_else(|| "load rejected a saved file".to_string())
}

pub fn save_wav(c: &WavCodec) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    c.save_to(&mut v).map_err(|e| format!("wav save_to failed on a Vec: {}", e))?;
    Ok(v)
}

pub fn load_wav(b: &[u8]) -> Result<WavCodec, String> {
    WavCodec::load(Cursor::new(b)).map_err(|e| format!("wav load failed: {}", e))
}

pub fn check_info<S: Streamable>(c: &S, want: StreamInfo) -> Result<(), String> {
    let got = Streamable::info(c);
    if got.channels() != want.channels() || got.frequency() != want.frequency() {
        return Err(format!(
            "info is {} Hz/{} channels instead of {} Hz/{} channels",
            got.frequency(), got.channels(), want.frequency(), want.channels()
        ));
    }
    Ok(())
}

/// The crate's own 16-bit PCM: samples written to and read back from a WavCodec.
pub fn through_wav(samples: &[f32], info: StreamInfo) -> Result<Vec<f32>, String> {
    if samples.is_empty() {
        return Ok(Vec::new());
    }
    let mut w = WavCodec::new(info);
    enc(&mut w, samples);
    w.seek(SeekFrom::Start(0));
    decode_rest(&mut w, samples.len(), samples.len())
}

/// The 16-bit value an input stands for, if it stands for one (samples of a 16-bit file do).
pub fn exact_unit(x: f32) -> Option<i16> {
    let v = x.clamp(-1.0, 1.0) as f64 * 32767.0;
    ((v - v.round()).abs() < 0.01).then_some(v.round() as i16)
}

/// Samples that are 16-bit values already must come out as they went in.
pub fn check_exact(input: &[f32], output: &[f32]) -> Result<(), String> {
    for (i, (&x, &y)) in input.iter().zip(output).enumerate() {
        if let Some(u) = exact_unit(x) {
            if !((y as f64 * 32767.0 - u as f64).abs() < 0.01) {
                return Err(format!("sample {}: the 16-bit value {} came out as {}", i, u, y as f64 * 32767.0));
            }
        }
    }
    Ok(())
}

/// What the distortion bound of a level allows.
pub fn distortion_bound(level: u32) -> f32 {
    if level == 0 {
        STEP * 1.005
    } else {
        (1u32 << level.min(10)) as f32 * STEP * 1.005 + 0.001 + 2e-6
    }
}

pub fn check_distortion(input: &[f32], output: &[f32], level: u32) -> Result<(), String> {
    if input.len() != output.len() {
        return Err(format!("{} samples decoded, {} encoded", output.len(), input.len()));
    }
    if level == 0 {
        check_exact(input, output)?;
    }
    let bound = distortion_bound(level);
    for i in 0..input.len() {
        let d = (input[i].clamp(-1.0, 1.0) - output[i]).abs();
        if !(d <= bound) {
            return Err(format!(
                "sample {}: {} decoded as {} (off by {}, allowed {} at level {})",
                i, input[i], output[i], d, bound, level
            ));
        }
    }
    Ok(())
}

/// signals of mixed sizes; `big` allows rare streams of 70000 blocks and more
pub fn mixed_signal(domain: Domain, big: bool) -> BoxedStrategy<Signal> {
    if big {
        prop_oneof![
            30 => signal(domain, 40),
            80 => signal(domain, 400),
            40 => signal(domain, 3000),
            4 => signal(domain, 20_000),
            1 => signal(domain, 140_000),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => signal(domain, 40),
            7 => signal(domain, 400),
            2 => signal(domain, 2500),
        ]
        .boxed()
    }
}

pub fn stream(domain: Domain, level: BoxedStrategy<u32>, big: bool) -> BoxedStrategy<Stream> {
    (rate(), channels(), level, mixed_signal(domain, big), cuts())
        .prop_map(|(rate, ch, level, sig, cuts)| {
            let mut s = Stream { rate, ch, level, sig, cuts };
            limit_calls(&mut s);
            s
        })
        .boxed()
}

/// A stream of at most a few dozen blocks, for histories of hundreds of operations.
pub fn small_stream(domain: Domain) -> BoxedStrategy<Stream> {
    (rate(), prop_oneof![4 => 1u32..=3, 1 => 4u32..=9], level(), signal(domain, 30), prop::collection::vec(1u32..20, 1..4))
        .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts })
        .boxed()
}

/// Streams with rare, very wide channel layouts and few blocks.
pub fn wide_stream(domain: Domain, level: BoxedStrategy<u32>) -> BoxedStrategy<Stream> {
    (rate(), prop_oneof![1 => 41u32..=400, 1 => 400u32..=1500], level, signal(domain, 12), cuts())
        .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts })
        .boxed()
}

/// keeps the number of encode calls of one case reasonable
pub fn limit_calls(s: &mut Stream) {
    let blocks = s.sig.blocks(s.ch as usize) as u64;
    let per: u64 = s.cuts.iter().map(|&c| c as u64).sum::<u64>().max(1);
    let calls = blocks / per * s.cuts.len() as u64;
    if calls > 3000 {
        s.cuts = vec![512];
    }
}

pub fn classify(s: &Stream, obs: &mut pbt::engine::Obs) {
    let n = s.sig.blocks(s.ch as usize);
    obs.label(match s.ch {
        1 => "ch=1",
        2 => "ch=2",
        3..=8 => "ch=3..8",
        _ => "ch>8",
    });
    obs.label(match n {
        0 => "blocks=0",
        1..=3 => "blocks=1..3",
        4..=100 => "blocks=4..100",
        101..=1000 => "blocks=101..1000",
        1001..=65535 => "blocks=1001..65535",
        _ => "blocks>65535",
    });
    let p = pieces(n, &s.cuts).len();
    obs.label(match p {
        0 | 1 => "calls<=1",
        2..=10 => "calls=2..10",
        _ => "calls>10",
    });
}
