//! C12 and C13: the .adhoc layout, and the size of what is written.
use crate::codecs::*;
use crate::p_adhoc::{dir_stream, directed_streams, duration_ms, scale_cases, C06};
use adhoc_audio::{SeekFrom, Streamable};
use pbt::engine::{Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use pbt::refcodec::{norm, predict, trunc, RefFile};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Case {
    s: Stream,
    /// Rice parameters, cycled over the frames
    exps: Vec<u8>,
    /// unused 128-bit words after the payload
    slack: u8,
    /// the writer rewound before saving
    rewound: bool,
    seeks: Vec<u16>,
    /// empty frames behind each frame of the reference encoder, cycled
    #[serde(default)]
    empties: Vec<u8>,
}

pub struct C12;

/// Drops empty pieces.
fn format_pieces(total: usize, cuts: &[u32]) -> Vec<usize> {
    // the layout counts a frame's samples in 16 bits
    pieces(total, cuts)
        .into_iter()
        .flat_map(|p| {
            let mut v = vec![65_535; p / 65_535];
            if p % 65_535 > 0 {
                v.push(p % 65_535);
            }
            v
        })
        .collect()
}

impl C12 {
    fn reference_to_crate(c: &C12Case, units: &[i16], sizes: &[usize]) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let mut at = 0;
        let mut groups = Vec::new();
        for (i, &n) in sizes.iter().enumerate() {
            let group: Vec<Vec<i16>> = (0..ch)
                .map(|k| (0..n).map(|t| units[(at + t) * ch + k]).collect())
                .collect();
            groups.push(group);
            at += n;
            if !c.empties.is_empty() {
                let n = c.empties[i % c.empties.len()] as usize;
                groups.resize(groups.len() + n, vec![Vec::new(); ch]);
            }
        }
        let mut f = RefFile::encode(s.level, (s.rate, s.ch), &groups, &c.exps);
        let (want, _) = f.decode().map_err(|e| format!("reference decoder on a reference file: {}", e))?;
        // sanity of the reference itself: it reproduces the samples it was given
        let scale = (1u32 << s.level) as f32;
        for (i, (&w, &u)) in want.iter().zip(units).enumerate() {
            assert!(same_f32(w, norm(u).clamp(-1.0, 1.0) * scale), "reference codec at {}", i);
        }
        assert_eq!(want.len(), units.len());
        if c.rewound {
            f.header_cursor = 0;
            f.bit_cursor = 0;
        }
        f.bits.extend(vec![0u128; c.slack as usize]);
        let mut l = load_adhoc(&f.to_bytes()).map_err(|_| "a reference file is rejected".to_string())?;
        check_info(&l, s.info())?;
        let n = l.calculate_sample_count_per_channel() as usize;
        ensure!(n * ch == want.len(), "a reference file of {} blocks is counted as {}", want.len() / ch, n);
        let out = decode_rest(&mut l, 1000, want.len() + 1000)?;
        if let Some(d) = first_diff(&out, &want) {
            return Err(format!("a reference file (Rice parameters {:?}) decodes differently: {}", c.exps, d));
        }
        for &f in &c.seeks {
            let ms = duration_ms(n, s.rate) * f as u64 / 1000;
            C06::seek_and_probe(&mut l, ms, s.rate, &want, ch).map_err(|e| format!("reference file: {}", e))?;
        }
        Ok(())
    }

    fn crate_to_reference(c: &C12Case, input: &[f32], sizes: &[usize]) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let mut codec = s.empty_codec();
        let mut at = 0;
        for &n in sizes {
            enc(&mut codec, &input[at..at + n * ch]);
            at += n * ch;
        }
        let bytes = save_adhoc(&codec)?;
        codec.init();
        let full = decode_rest(&mut codec, 1000, input.len() + 1000)?;
        let f = RefFile::parse(&bytes).map_err(|e| format!("a written file does not follow the layout: {}", e))?;
        f.sound().map_err(|e| format!("a written file is inconsistent: {}", e))?;
        ensure!(f.info == Some((s.rate, s.ch)), "stream info {:?} in the file of a {} Hz, {} channel stream", f.info, s.rate, s.ch);
        ensure!(f.level == s.level, "level {} in the file of a level {} stream", f.level, s.level);
        let (out, starts) = f.decode().map_err(|e| format!("the reference decoder fails on a written file: {}", e))?;
        if let Some(d) = first_diff(&out, &full) {
            return Err(format!("the reference decoder disagrees on a written file: {}", d));
        }
        for (i, &(start, hist)) in starts.iter().enumerate() {
            ensure!(f.cursors[i] == start, "frame {} starts at bit {} but its header says {}", i, start, f.cursors[i]);
            ensure!(f.is_init(i) == (i < ch), "frame {} of {} channels has first-frame flag {}", i, ch, f.is_init(i));
            ensure!(
                i < ch || f.history[i] == hist,
                "frame {} stores the history {:?}, its channel ended with {:?}",
                i, f.history[i], hist
            );
        }
        Ok(())
    }
}

impl Prop for C12 {
    const ID: &'static str = "C12";
    type Case = C12Case;
    const RULE: &'static str = "a stream (level 0-10, any channels, frames of 1 up to 65535 samples, empty frames in between) (a) written by the independent reference encoder with generated Rice parameters 1-15, slack and cursors, then loaded, decoded and sought by the crate, and (b) written by the crate, then parsed and decoded by the reference, with every frame's start, flag and history recomputed; non-trivial = at least two frames per channel and 8 samples not all equal";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 50_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C12Case> {
        (
            prop_oneof![40 => stream(Domain::Unit, level(), true), 1 => wide_stream(Domain::Unit, level())],
            prop_oneof![
                1 => (1u8..=15).prop_map(|k| vec![k]),
                2 => prop::collection::vec(1u8..=15, 1..=9),
                1 => prop::collection::vec(6u8..=15, 1..=9),
            ],
            0u8..3,
            any::<bool>(),
            prop::collection::vec(0u16..1100, 0..3),
            prop_oneof![
                5 => Just(vec![]),
                2 => prop::collection::vec(0u8..3, 1..5),
                1 => prop::collection::vec(prop_oneof![4 => Just(0u8), 1 => 8u8..30], 1..5),
            ],
        )
            .prop_map(|(s, exps, slack, rewound, seeks, empties)| C12Case { s, exps, slack, rewound, seeks, empties })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C12Case> {
        let mut v = Vec::new();
        for (i, s) in (0..=10).flat_map(directed_streams).enumerate() {
            if s.sig.blocks(1) < 60_000 || i % 7 == 0 {
                v.push(C12Case { s, exps: vec![12, 13, 15, 11], slack: (i % 3) as u8, rewound: i % 2 == 0, seeks: vec![300, 1000], empties: if i % 5 == 0 { vec![0, 1, 12] } else { vec![] } });
            }
        }
        for k in 1u8..=15 {
            v.push(C12Case {
                s: dir_stream(44_100, 2, (k % 11) as u32, vec![Seg::Noise { amp: 32767, seed: k as u16, n: 90 }], vec![7, 11]),
                exps: vec![k],
                slack: 0,
                rewound: false,
                seeks: vec![500],
                empties: vec![k - 1],
            });
        }
        v
    }
    fn check(c: &C12Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let input = s.samples();
        let blocks = input.len() / ch;
        classify(s, obs);
        let sizes = format_pieces(blocks, &s.cuts);
        obs.label_if(sizes.first().is_some_and(|&n| n < 3), "first frame of 1 or 2 blocks");
        obs.label_if(sizes.iter().any(|&n| n >= 65_535), "frame of 65535");
        obs.nontrivial = sizes.len() >= 2 && input.len() >= 8 && input.iter().any(|&x| x != input[0]);
        let units: Vec<i16> = input.iter().map(|&x| trunc(x)).collect();
        obs.label_if(c.empties.iter().any(|&n| n > 0), "empty frames");
        obs.label_if(c.empties.iter().any(|&n| n >= 10), "10 empty frames in a row");
        // long unary runs are exercised on short streams only
        let costly = c.exps.iter().any(|&k| k < 6) && input.len() > 20_000;
        if !costly {
            obs.label("reference encoder to crate");
            Self::reference_to_crate(c, &units, &sizes)?;
        }
        Self::crate_to_reference(c, &input, &sizes)
    }
}

// ------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C13Case {
    s: Stream,
}

pub struct C13;

impl Prop for C13 {
    const ID: &'static str = "C13";
    type Case = C13Case;
    const RULE: &'static str = "a stream of any level, channels and chunking; the quantised samples are recovered from the decoded audio, every frame is priced with its best Rice parameter, and the saved file may cost no more than that sum plus 160 bits per frame and 1536 bits; non-trivial = at least 200 samples (so that the payload outweighs the allowance)";
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 250_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C13Case> {
        prop_oneof![40 => stream(Domain::Any, level(), true), 1 => wide_stream(Domain::Any, level())]
            .prop_map(|s| C13Case { s })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C13Case> {
        let mut v: Vec<C13Case> = [0u32, 1, 5, 10].into_iter().flat_map(directed_streams).map(|s| C13Case { s }).collect();
        // residuals of every size, in both signs
        for k in 0..=15u32 {
            for d in [-1i32, 0] {
                let e = ((1i32 << k) + d).clamp(0, 32_767) as u16;
                v.push(C13Case { s: dir_stream(44_100, 1, 0, vec![Seg::Resid { e, seed: 4, n: 3000 }], vec![700]) });
                v.push(C13Case { s: dir_stream(44_100, 2, 0, vec![Seg::Noise { amp: e, seed: 4, n: 1500 }], vec![512]) });
            }
        }
        v
    }
    fn check(c: &C13Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let ch = s.ch as usize;
        let input = s.samples();
        classify(s, obs);
        let mut codec = s.build(&input);
        let real = save_adhoc(&codec)?.len() as u64 * 8;
        codec.seek(SeekFrom::Start(0));
        let out = decode_rest(&mut codec, 4096, input.len() + 1000)?;
        ensure!(out.len() == input.len(), "{} samples decoded, {} encoded", out.len(), input.len());
        let scale = (1u32 << s.level) as f64;
        let units: Vec<i16> = out.iter().map(|&x| (x as f64 / scale * 32767.0).round() as i16).collect();
        obs.nontrivial = input.len() >= 200;

        // frames are what single encode calls of at most 65535 blocks make
        let mut sizes: Vec<usize> = Vec::new();
        for call in s.calls(&input) {
            let mut n = call.len() / ch;
            while n > 0 {
                sizes.push(n.min(65_535));
                n -= n.min(65_535);
            }
        }
        let mut payload: u64 = 0;
        let mut hist = vec![Vec::<i16>::new(); ch];
        let mut at = 0;
        for &n in &sizes {
            for k in 0..ch {
                let mut table = [0u64; 16];
                for t in 0..n {
                    let x = units[(at + t) * ch + k];
                    let h = &mut hist[k];
                    if at == 0 && t < 3 {
                        payload += 16;
                    } else {
                        // with fewer than three predecessors the oldest one stands in
                        let back = |i: usize| if h.is_empty() { 0 } else { h[h.len() - i.min(h.len())] };
                        let e = x.wrapping_sub(predict([back(3), back(2), back(1)])).unsigned_abs() as u64;
                        for (j, bits) in table.iter_mut().enumerate().skip(1) {
                            *bits += (e >> j) + 2 + j as u64;
                        }
                    }
                    h.push(x);
                    if h.len() > 3 {
                        h.remove(0);
                    }
                }
                payload += table[1..].iter().min().unwrap();
            }
            at += n;
        }
        let allowed = payload + 160 * (sizes.len() * ch) as u64 + 1536;
        ensure!(
            real <= allowed,
            "{} samples in {} frames take {} bits; the best Rice parameters cost {}, with overhead {}",
            input.len(), sizes.len() * ch, real, payload, allowed
        );
        let ratio = payload as f64 / (input.len().max(1) * 16) as f64;
        obs.label(match ratio {
            r if r < 0.25 => "below a quarter of PCM",
            r if r < 0.6 => "a quarter to 60% of PCM",
            r if r < 1.0 => "60-100% of PCM",
            _ => "above PCM",
        });
        Ok(())
    }
}
