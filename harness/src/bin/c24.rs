//! C24: the exported frame table and frame codec.
use adhoc_audio::codec::{AudioStream, CodecState, FrameCodec, FrameHeader, FrameHeaders, StreamInfo};
use pbt::engine::{run, Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::{i16_edge, mix, round_size, STEP};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Head {
    exponent: u8,
    size: u16,
    bit_cursor: u64,
    is_init: bool,
    history: [i16; 3],
}

impl Head {
    fn header(&self) -> FrameHeader {
        FrameHeader {
            exponent: self.exponent,
            size: self.size,
            bit_cursor: self.bit_cursor as u128,
            is_init: self.is_init,
            stack_history: self.history,
        }
    }
}

fn same(h: &FrameHeader, want: &Head) -> bool {
    h.exponent == want.exponent
        && h.size == want.size
        && h.bit_cursor == want.bit_cursor as u128
        && h.is_init == want.is_init
        && h.stack_history == want.history
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TableOp {
    Push(Head),
    /// this many headers made from a seed
    PushMany(u16, u16),
    /// this many headers in a row
    Next(u16),
    /// permille of the length
    Get(u16),
    /// permille of the length
    MoveTo(u16),
    Reset,
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Samples {
    Values(Vec<i16>),
    /// noise of this many bits
    Noise { n: u16, bits: u8, seed: u16 },
    Ramp { n: u16, from: i16, by: i16 },
    Constant { n: u16, v: i16 },
}

impl Samples {
    fn values(&self) -> Vec<i16> {
        match self {
            Samples::Values(v) => v.clone(),
            Samples::Noise { n, bits, seed } => (0..*n as u64)
                .map(|k| (mix(*seed as u64, k, 24) as i16) >> (15 - (*bits).min(15)))
                .collect(),
            Samples::Ramp { n, from, by } => (0..*n as i64)
                .map(|k| (*from as i64 + k * *by as i64).clamp(-32767, 32767) as i16)
                .collect(),
            Samples::Constant { n, v } => vec![*v; *n as usize],
        }
        .into_iter()
        // -32768 can't be told from -32767 once it is a float between -1 and 1
        .map(|v| v.max(-32767))
        .collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    Table(Vec<TableOp>),
    Frames {
        codecs: u8,
        /// whose frame comes next, and what is in it
        turns: Vec<(u8, Samples)>,
        /// frames decoded on their own (permille of the frames)
        picks: Vec<u16>,
        reload: bool,
        /// buffers are emptied only at the end
        keep: bool,
    },
    Info { rate: u32, channels: u32 },
}

fn reload<T: Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<T, String> {
    let bytes = bincode::serialize(x).map_err(|e| format!("serialising fails: {}", e))?;
    bincode::deserialize(&bytes).map_err(|e| format!("what was serialised can't be read: {}", e))
}

fn check_weight(t: &FrameHeaders) -> Result<(), String> {
    let bits = bincode::serialized_size(t).map_err(|e| e.to_string())? * 8;
    let bound = t.calculate_weight_upperbound();
    ensure!(bits <= bound, "the table of {} headers takes {} bits, more than the bound of {}", t.len(), bits, bound);
    Ok(())
}

fn check_table(ops: &[TableOp], obs: &mut Obs) -> Result<(), String> {
    let mut t = FrameHeaders::new();
    let mut model: Vec<Head> = Vec::new();
    let mut at = 0usize;
    for (i, op) in ops.iter().enumerate() {
        let here = |m: String| format!("operation {} ({:?}): {}", i, op, m);
        match op {
            TableOp::Push(h) => {
                obs.label_if(at < model.len(), "overwritten from the middle");
                obs.nontrivial |= at < model.len() || model.len() >= 2;
                model.truncate(at);
                model.push(*h);
                t.push(h.header());
                at += 1;
            }
            TableOp::PushMany(n, seed) => {
                obs.nontrivial |= *n >= 2;
                model.truncate(at);
                for k in 0..*n as u64 {
                    let r = mix(*seed as u64, k, 7);
                    let h = Head {
                        exponent: (r % 16) as u8,
                        size: (r >> 8) as u16,
                        bit_cursor: mix(*seed as u64, k, 8) >> (r >> 24 & 63),
                        is_init: r >> 30 & 1 == 1,
                        history: [(r >> 32) as i16, (r >> 40) as i16, (r >> 48) as i16],
                    };
                    model.push(h);
                    t.push(h.header());
                    at += 1;
                }
                obs.label_if(model.len() > 65_536, "more headers than 16 bits count");
            }
            TableOp::Next(n) => {
                for _ in 0..*n {
                    let got = t.next();
                    let want = model.get(at);
                    ensure!(got.is_some() == want.is_some(), "{}", here(format!("at {} of {} next() is {}", at, model.len(), got.is_some())));
                    if let (Some(g), Some(w)) = (got, want) {
                        ensure!(same(&g, w), "{}", here(format!("header {} isn't what was pushed, {:?}", at, w)));
                        at += 1;
                    } else {
                        break;
                    }
                }
            }
            TableOp::Get(f) => {
                let k = *f as usize * model.len() / 1000;
                let (got, want) = (t.get(k), model.get(k));
                ensure!(got.is_some() == want.is_some(), "{}", here(format!("get({}) of {} is {}", k, model.len(), got.is_some())));
                if let (Some(g), Some(w)) = (got, want) {
                    ensure!(same(&g, w), "{}", here(format!("header {} isn't what was pushed, {:?}", k, w)));
                }
            }
            TableOp::MoveTo(f) => {
                at = (*f as usize * model.len() / 1000).min(model.len());
                t.set_cursor(at as u32);
            }
            TableOp::Reset => {
                t.reset();
                at = 0;
            }
            TableOp::Reload => {
                t = reload(&t).map_err(here)?;
                obs.label("reloaded");
            }
        }
        ensure!(t.len() == model.len(), "{}", here(format!("{} headers instead of {}", t.len(), model.len())));
        check_weight(&t).map_err(here)?;
    }
    for (k, w) in model.iter().enumerate() {
        let g = t.get(k).ok_or_else(|| format!("header {} of {} is missing", k, model.len()))?;
        ensure!(same(&g, w), "in the end header {} isn't what was pushed, {:?}", k, w);
    }
    ensure!(t.get(model.len()).is_none(), "there is a header beyond the last");
    let rest = t.by_ref().count();
    ensure!(rest == model.len() - at, "{} headers left to iterate at {} of {}", rest, at, model.len());
    t.reset();
    for (k, w) in model.iter().enumerate() {
        ensure!(t.next().is_some_and(|g| same(&g, w)), "iterating, header {} isn't what was pushed", k);
    }
    Ok(())
}

fn drain(c: &mut FrameCodec) -> Vec<f32> {
    c.buffered_channel_mut().drain(..).collect()
}

fn expect(got: &[f32], want: &[i16], what: &str) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{}: {} samples instead of {}", what, got.len(), want.len());
    for (k, (&g, &w)) in got.iter().zip(want).enumerate() {
        ensure!((g * 32767.0).round() as i32 == w as i32 && (g - w as f32 * STEP).abs() < 1e-6,
            "{}: sample {} is {} ({}/32767) instead of {}", what, k, g, g * 32767.0, w);
    }
    Ok(())
}

fn check_frames(n: usize, turns: &[(u8, Samples)], picks: &[u16], again: bool, keep: bool, obs: &mut Obs) -> Result<(), String> {
    let mut stream = AudioStream::new();
    let mut table = FrameHeaders::new();
    let mut codecs = vec![FrameCodec::new(); n];
    let mut begun = vec![false; n];
    let mut frames: Vec<(usize, Vec<i16>)> = Vec::new();
    for (who, s) in turns {
        let who = *who as usize % n;
        let values = s.values();
        let pcm: Vec<f32> = values.iter().map(|&v| v as f32 * STEP).collect();
        let at = stream.bit_cursor();
        let k = frames.len();
        let twin = (k % 3 == 1 && values.len() < 1000).then(|| codecs[who].clone());
        codecs[who].encode_frame(&mut stream, &mut table, &pcm);
        ensure!(table.len() == k + 1, "{} headers after {} frames", table.len(), k + 1);
        let h = table.get(k).ok_or("the header of the last frame is missing")?;
        ensure!(h.size as usize == values.len(), "frame {} of {} samples is stored as {}", k, values.len(), h.size);
        ensure!(h.bit_cursor == at, "frame {} begins at bit {}, its header says {}", k, at, h.bit_cursor);
        ensure!(h.is_init != begun[who], "frame {}: is_init is {}", k, h.is_init);
        if let Some(mut twin) = twin {
            // a clone writes the same frame from there, wherever it writes it
            let (mut other, mut list) = (AudioStream::new(), FrameHeaders::new());
            twin.encode_frame(&mut other, &mut list, &pcm);
            let c = list.get(0).ok_or("the header of a clone is missing")?;
            ensure!((c.exponent, c.size, c.is_init, c.stack_history) == (h.exponent, h.size, h.is_init, h.stack_history),
                "frame {} gets another header from a clone", k);
            ensure!(other.bit_cursor() == stream.bit_cursor() - at, "frame {} takes {} bits, {} from a clone", k, stream.bit_cursor() - at, other.bit_cursor());
            let end = stream.bit_cursor();
            let mut left = (end - at) as usize;
            stream.set_bit_cursor(at);
            other.seek_start();
            while left > 0 {
                let n = left.min(100);
                ensure!(stream.read_bits(n) == other.read_bits(n), "frame {} is written differently by a clone", k);
                left -= n;
            }
            stream.set_bit_cursor(end);
            obs.label("written by a clone too");
        }
        begun[who] = true;
        frames.push((who, values));
    }
    check_weight(&table)?;
    if again {
        obs.label("reloaded");
        stream = reload(&stream)?;
        table = reload(&table)?;
    }
    let in_turn = frames.iter().enumerate().all(|(k, f)| f.0 == k % n);
    obs.label(if in_turn { "codecs take turns" } else { "codecs in any order" });
    obs.label_if(frames.iter().any(|f| f.1.is_empty()), "empty frame");
    obs.label_if(frames.iter().any(|f| f.1.len() > 60_000), "frame over 60000 samples");
    obs.nontrivial = frames.len() >= 3 && frames.iter().map(|f| f.1.len()).sum::<usize>() >= 8;

    // all of them in order
    stream.seek_start();
    table.reset();
    for c in &mut codecs {
        c.init();
    }
    let mut kept: Vec<Vec<i16>> = vec![Vec::new(); n];
    for (k, (who, want)) in frames.iter().enumerate() {
        let c = &mut codecs[*who];
        let mut twin = (k % 3 == 0 && want.len() < 1000).then(|| (c.clone(), stream.bit_cursor()));
        let r = c.decode_frame(&mut stream, &mut table);
        ensure!(r == Some(want.len()), "decoding frame {} of {} samples returns {:?}", k, want.len(), r);
        let end = stream.bit_cursor();
        if keep {
            kept[*who].extend(want);
            let b = c.buffered_channel();
            ensure!(b.len() == kept[*who].len(), "{} samples are buffered of {}", b.len(), kept[*who].len());
        } else {
            expect(&drain(c), want, &format!("frame {}", k))?;
        }
        if let Some((twin, at)) = &mut twin {
            // a clone goes on from the same place, on its own, with what was waiting in the buffer
            let mut all = kept[*who].clone();
            if !keep {
                all.extend(want);
            }
            stream.set_bit_cursor(*at);
            table.set_cursor(k as u32);
            twin.decode_frame(&mut stream, &mut table);
            expect(&drain(twin), &all, &format!("frame {} in a clone", k))?;
            obs.label_if(all.len() > want.len(), "cloned with audio in the buffer");
            ensure!(stream.bit_cursor() == end, "frame {} ends at bit {} and {}", k, end, stream.bit_cursor());
        }
    }
    for (who, c) in codecs.iter_mut().enumerate() {
        ensure!(c.decode_frame(&mut stream, &mut table).is_none(), "a frame decodes after the last");
        expect(&drain(c), &kept[who], "what was kept in the buffer")?;
    }

    // any of them by its header
    for &p in picks {
        if frames.is_empty() {
            break;
        }
        let k = (p as usize * frames.len() / 1000).min(frames.len() - 1);
        // what a header says of the history is nothing where the first frame was empty
        let first = frames.iter().find(|f| f.0 == frames[k].0);
        if first.is_some_and(|f| f.1.is_empty()) {
            obs.label("first frame empty");
            continue;
        }
        let h = table.get(k).ok_or("a header is missing")?;
        let mut c = FrameCodec::new();
        if !h.is_init {
            for v in h.stack_history {
                c.sample_history_mut().push(v);
            }
            *c.state_mut() = CodecState::Decoding;
        }
        stream.set_bit_cursor(h.bit_cursor);
        table.set_cursor(k as u32);
        let r = c.decode_frame(&mut stream, &mut table);
        ensure!(r == Some(frames[k].1.len()), "decoding frame {} on its own returns {:?}", k, r);
        expect(&drain(&mut c), &frames[k].1, &format!("frame {} on its own", k))?;
        obs.label("frame decoded on its own");
    }
    Ok(())
}

fn check_info(rate: u32, channels: u32, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = rate != channels;
    let fine = |i: &StreamInfo, what: &str| -> Result<(), String> {
        ensure!(i.frequency() == rate as usize && i.channels() == channels as usize,
            "{}: {} Hz and {} channels instead of {} and {}", what, i.frequency(), i.channels(), rate, channels);
        Ok(())
    };
    let i = StreamInfo::new(rate, channels);
    fine(&i, "new")?;
    let copy = i;
    fine(&copy, "a copy")?;
    fine(&reload(&i)?, "reloaded")?;
    let mut want = rate.to_ne_bytes().to_vec();
    want.extend(channels.to_ne_bytes());
    ensure!(i.as_bytes() == want, "the bytes of {} Hz, {} channels are {:?}", rate, channels, i.as_bytes());
    let mut s = AudioStream::new();
    ensure!(s.info().is_none(), "a new stream has an info");
    s.set_info(Some(i));
    fine(&s.info().ok_or("the info is lost")?, "in a stream")?;
    fine(&reload(&s)?.info().ok_or("the info is lost in a file")?, "in a reloaded stream")?;
    s.set_info(None);
    ensure!(s.info().is_none(), "an info can't be taken back");
    ensure!(reload(&s)?.info().is_none(), "an info comes from nowhere");
    let d = StreamInfo::default();
    ensure!(d.frequency() == 0 && d.channels() == 0, "the default is {} Hz, {} channels", d.frequency(), d.channels());
    Ok(())
}

fn head() -> BoxedStrategy<Head> {
    (
        0u8..16,
        prop_oneof![any::<u16>(), prop::sample::select(vec![0u16, 1, 65_535, 32_768])],
        prop_oneof![any::<u64>(), 0u64..5000, (0u32..64).prop_map(|k| 1u64 << k), Just(u64::MAX), Just(u32::MAX as u64 + 1)],
        any::<bool>(),
        [any::<i16>(), any::<i16>(), any::<i16>()],
    )
        .prop_map(|(exponent, size, bit_cursor, is_init, history)| Head { exponent, size, bit_cursor, is_init, history })
        .boxed()
}

fn samples() -> BoxedStrategy<Samples> {
    let n = || prop_oneof![60 => 0u16..8, 60 => 0u16..100, 20 => 100u16..1500, 1 => round_size(65_535).prop_map(|n| n as u16)];
    prop_oneof![
        3 => prop::collection::vec(i16_edge(), 0..30).prop_map(Samples::Values),
        3 => (n(), 1u8..=15, any::<u16>()).prop_map(|(n, bits, seed)| Samples::Noise { n, bits, seed }),
        1 => (n(), i16_edge(), -300i16..300).prop_map(|(n, from, by)| Samples::Ramp { n, from, by }),
        1 => (n(), i16_edge()).prop_map(|(n, v)| Samples::Constant { n, v }),
    ]
    .boxed()
}

pub struct C24;
impl Prop for C24 {
    const ID: &'static str = "C24";
    type Case = Case;
    const RULE: &'static str = "operation sequences on a frame table (push at the end or over old headers, next, get, move, reset, serialise) against a list of headers; 1-6 frame codecs writing frames of 0-65535 samples into one stream in any order, decoded in that order, from clones, and singly from their headers; stream infos of any rate and channel count; non-trivial = a table with a push over old headers or of three, at least 3 frames and 8 samples, an info of two different numbers";
    const ASSUMPTIONS: &'static [&'static str] = &["the table's cursor is moved to headers it has or the end, exponents are 0-15, bit positions below 2^64 (what a header field holds)", "a frame holds at most 65535 samples", "frames behind an empty first frame are only decoded in order (AdhocCodec writes no empty frames)"];
    fn cases(tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            400 => head().prop_map(TableOp::Push),
            100 => (1u16..40, any::<u16>()).prop_map(|(n, s)| TableOp::PushMany(n, s)),
            10 => (1u16..700, any::<u16>()).prop_map(|(n, s)| TableOp::PushMany(n, s)),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(n, s)| TableOp::PushMany(n, s)),
            200 => (1u16..10).prop_map(TableOp::Next),
            200 => (0u16..=1100).prop_map(TableOp::Get),
            200 => prop_oneof![3 => 0u16..=1000, 1 => Just(1000u16)].prop_map(TableOp::MoveTo),
            50 => Just(TableOp::Reset),
            50 => Just(TableOp::Reload),
        ];
        prop_oneof![
            20 => prop_oneof![90 => prop::collection::vec(op.clone(), 1..20), 30 => prop::collection::vec(op.clone(), 20..100), 1 => prop::collection::vec(op, 258..900)].prop_map(Case::Table),
            20 => (
                prop_oneof![15 => 1u8..=6, 1 => 7u8..=120],
                prop_oneof![80 => prop::collection::vec((any::<u8>(), samples()), 0..12), 1 => prop::collection::vec((any::<u8>(), samples()), 12..300)],
                prop::collection::vec(0u16..1000, 0..4),
                any::<bool>(),
                prop::bool::weighted(0.2),
                any::<bool>(),
            )
                .prop_map(|(codecs, mut turns, picks, reload, keep, in_turn)| {
                    for (k, t) in turns.iter_mut().enumerate() {
                        t.0 = if in_turn { k as u8 } else { t.0 } % codecs;
                    }
                    Case::Frames { codecs, turns, picks, reload, keep }
                }),
            1 => (any::<u32>(), any::<u32>()).prop_map(|(rate, channels)| Case::Info { rate, channels }),
        ]
        .boxed()
    }
    fn directed(_: Tier) -> Vec<Case> {
        let mut v = vec![
            Case::Table(vec![
                TableOp::PushMany(65_535, 1), TableOp::PushMany(40_000, 2), TableOp::Reload, TableOp::Get(999), TableOp::MoveTo(900),
                TableOp::Next(3), TableOp::PushMany(3, 4), TableOp::Reset, TableOp::Next(2), TableOp::PushMany(1, 9),
            ]),
            Case::Info { rate: 44_100, channels: 2 },
            Case::Info { rate: u32::MAX, channels: 0 },
        ];
        for n in [0u16, 1, 2, 3, 4, 5, 65_534, 65_535] {
            for bits in [1u8, 8, 15] {
                for codecs in [1u8, 2, 3] {
                    v.push(Case::Frames {
                        codecs,
                        turns: (0..6).map(|k| (k % codecs, Samples::Noise { n: if k == 3 { 7 } else { n }, bits, seed: k as u16 })).collect(),
                        picks: vec![0, 350, 700, 999],
                        reload: bits == 8,
                        keep: codecs == 3,
                    });
                }
            }
        }
        // every table length up to 300
        v.extend((1..=300).map(|n| Case::Table(vec![TableOp::PushMany(n, n), TableOp::MoveTo(500), TableOp::PushMany(1, 3), TableOp::Reload])));
        v
    }
    fn check(case: &Case, obs: &mut Obs) -> Result<(), String> {
        match case {
            Case::Table(ops) => check_table(ops, obs),
            Case::Frames { codecs, turns, picks, reload, keep } => {
                check_frames((*codecs).max(1) as usize, turns, picks, *reload, *keep, obs)
            }
            Case::Info { rate, channels } => check_info(*rate, *channels, obs),
        }
    }
}

#[allow(dead_code)]
fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::<C24>(&argv[1.min(argv.len())..]));
}
