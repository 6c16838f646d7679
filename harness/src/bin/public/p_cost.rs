//! C23: what encoding, decoding, seeking, saving and loading cost.
use crate::codecs::*;
use crate::p_adhoc::{dir_stream, duration_ms, scale_cases};
use adhoc_audio::{SeekFrom, Streamable, WavCodec};
use pbt::engine::{measured, Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Task {
    Encode,
    /// rewinds and encodes the same audio again
    Reencode,
    /// with buffers for this many blocks
    Decode(u32),
    /// 16 seeks all over the stream, each followed by reading one block
    Seek,
    /// 200 times, along with other calls that have next to nothing to do
    Count,
    Save,
    Load,
}

/// what grows eightfold
#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Grow {
    /// the number of encode calls
    Calls,
    /// the size of each encode call
    CallSize,
    Channels,
    /// one more encode call before the others, of seven times as much audio
    Lead,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C23Case {
    wav: bool,
    task: Task,
    grow: Grow,
    level: u32,
    channels: u32,
    calls: u32,
    blocks_per_call: u32,
    sig: Seg,
}

const GROWTH: u32 = 8;
/// how much more than eight times the cost is still taken for proportional
const TOLERANCE: f64 = 3.0;
/// differences below this (seconds) say nothing
const NOISE: f64 = 0.004;

/// what a run gave: processor time, additional memory, bytes of the stream, bytes of samples in
/// a call, and whether the audio had to be read
struct Cost {
    time: f64,
    memory: usize,
    file: usize,
    frame: usize,
}

fn run(c: &C23Case, size: Size) -> Result<Cost, String> {
    let Size { channels, calls, blocks, lead } = size;
    let ch = channels as usize;
    let mut s = dir_stream(44_100, channels, c.level, vec![c.sig.clone()], vec![]);
    let mut audio = |blocks| {
        if let Some(n) = s.sig.segs[0].length_mut() {
            *n = blocks;
        }
        s.samples()
    };
    let first = if lead > 0 { audio(lead) } else { vec![] };
    let call = audio(blocks);
    let longest = call.len().max(first.len());
    let frame = 4 * match c.task {
        // (a frame has at most 65535 blocks)
        Task::Decode(_) | Task::Seek | Task::Count => longest.min(65_535 * ch),
        _ => longest,
    };
    let duration = duration_ms(blocks as usize * calls as usize + lead as usize, s.rate);
    if c.wav {
        let mut w = WavCodec::new(s.info());
        let encode = |w: &mut WavCodec| {
            if lead > 0 {
                enc(w, &first);
            }
            for _ in 0..calls {
                enc(w, &call);
            }
        };
        let ((), time, memory) = measured(|| encode(&mut w));
        let file = (call.len() * calls as usize + first.len()) * 2 + 44;
        let ((), time, memory) = match c.task {
            Task::Encode => ((), time, memory),
            Task::Reencode => {
                w.seek(SeekFrom::Start(0));
                measured(|| encode(&mut w))
            }
            Task::Decode(n) => {
                w.seek(SeekFrom::Start(0));
                let mut buf = vec![0.0; n as usize * ch];
                measured(|| while dec(&mut w, &mut buf).is_some() {})
            }
            Task::Seek => {
                let mut buf = vec![0.0; ch];
                measured(|| {
                    for k in 0..16 {
                        w.seek(SeekFrom::Start(duration * k / 16));
                        dec(&mut w, &mut buf);
                    }
                })
            }
            Task::Count => measured(|| {
                for _ in 0..200 {
                    enc(&mut w, &[]);
                    Streamable::filesize_upperbound(&w);
                    Streamable::info(&w);
                    w.seek(SeekFrom::Start(0));
                    dec(&mut w, &mut []);
                    w.seek(SeekFrom::End(0));
                }
            }),
            Task::Save => {
                let mut out = Vec::with_capacity(file + 100);
                measured(|| w.save_to(&mut out).expect("saves"))
            }
            Task::Load => {
                let bytes = save_wav(&w)?;
                let (_kept, time, memory) = measured(|| WavCodec::load(Cursor::new(&bytes[..])));
                ((), time, memory)
            }
        };
        return Ok(Cost { time, memory, file, frame });
    }
    let mut a = s.empty_codec();
    let encode = |a: &mut adhoc_audio::AdhocCodec| {
        if lead > 0 {
            enc(a, &first);
        }
        for _ in 0..calls {
            enc(a, &call);
        }
    };
    let ((), time, memory) = measured(|| encode(&mut a));
    let file = (Streamable::filesize_upperbound(&a) / 8) as usize;
    let ((), time, memory) = match c.task {
        Task::Encode => ((), time, memory),
        Task::Reencode => {
            a.init();
            measured(|| encode(&mut a))
        }
        Task::Decode(n) => {
            a.init();
            let mut buf = vec![0.0; n as usize * ch];
            measured(|| while dec(&mut a, &mut buf).is_some() {})
        }
        Task::Seek => {
            let mut buf = vec![0.0; ch];
            measured(|| {
                for k in 0..16 {
                    a.seek(SeekFrom::Start(duration * k / 16));
                    dec(&mut a, &mut buf);
                }
            })
        }
        Task::Count => measured(|| {
            for _ in 0..200 {
                enc(&mut a, &[]);
                a.calculate_sample_count_per_channel();
                Streamable::filesize_upperbound(&a);
                a.info();
            }
            for _ in 0..200 {
                a.init();
                dec(&mut a, &mut []);
            }
        }),
        Task::Save => {
            let mut out = Vec::with_capacity(file + 100);
            measured(|| a.save_to(&mut out).expect("saves"))
        }
        Task::Load => {
            let bytes = save_adhoc(&a)?;
            let (_kept, time, memory) = measured(|| adhoc_audio::AdhocCodec::load(&bytes[..]));
            ((), time, memory)
        }
    };
    Ok(Cost { time, memory, file, frame })
}

/// Memory on top of what was there: the stream itself when the task makes (or may make) a copy of
/// it, and always room
/// for the audio of one call and some more.
fn check_memory(c: &C23Case, cost: &Cost, channels: u32) -> Result<(), String> {
    let makes_stream = matches!(c.task, Task::Encode | Task::Reencode | Task::Save | Task::Load);
    let stream = if makes_stream { 6 * cost.file } else { 0 };
    let allowed = stream + 8 * cost.frame + 2048 * channels as usize + (256 << 10);
    ensure!(cost.memory <= allowed,
        "{:?} used {} bytes more than before, for a stream of {} bytes written in calls of {} bytes (expected at most {})",
        c.task, cost.memory, cost.file, cost.frame, allowed);
    Ok(())
}

#[derive(Copy, Clone, Debug)]
struct Size {
    channels: u32,
    calls: u32,
    blocks: u32,
    lead: u32,
}

pub struct C23;
impl C23 {
    fn sizes(c: &C23Case) -> (Size, Size) {
        let small = Size { channels: c.channels, calls: c.calls, blocks: c.blocks_per_call, lead: 0 };
        let mut large = small;
        match c.grow {
            Grow::Calls => large.calls *= GROWTH,
            Grow::CallSize => large.blocks *= GROWTH,
            Grow::Channels => large.channels *= GROWTH,
            Grow::Lead => large.lead = (GROWTH - 1) * small.calls * small.blocks,
        }
        (small, large)
    }
}

fn case() -> BoxedStrategy<C23Case> {
    let task = prop_oneof![
        3 => Just(Task::Encode),
        2 => Just(Task::Reencode),
        4 => prop_oneof![Just(1u32), 2u32..2000].prop_map(Task::Decode),
        2 => Just(Task::Seek),
        1 => Just(Task::Count),
        2 => Just(Task::Save),
        2 => Just(Task::Load),
    ];
    let grow = prop_oneof![3 => Just(Grow::Calls), 2 => Just(Grow::CallSize), 2 => Just(Grow::Channels), 2 => Just(Grow::Lead)];
    let sig = prop_oneof![
        any::<u16>().prop_map(|seed| Seg::Noise { amp: 32_767, seed, n: 0 }),
        (1u16..300).prop_map(|amp| Seg::Noise { amp, seed: 1, n: 0 }),
        (100u16..30_000, 20u16..500).prop_map(|(amp, period)| Seg::Tone { amp, period, n: 0 }),
        Just(Seg::Const { v: 0, n: 0 }),
    ];
    (prop::bool::weighted(0.2), task, grow, level(), 1u32..=12, 0u32..=100, sig)
        .prop_map(|(wav, task, grow, level, channels, cut, sig)| {
            // about 100000 samples, cut into 1 to 50000 calls
            let blocks = 100_000 / channels;
            // (a seek may decode a frame, and frames grow with the first call)
            let task = if (task, grow) == (Task::Seek, Grow::Lead) { Task::Encode } else { task };
            let calls = match cut {
                0..=20 => 1 + cut / 10,
                21..=60 => cut * 2,
                61..=80 => blocks / (cut - 58),
                _ => blocks / (cut - 79),
            }
            .clamp(1, blocks);
            C23Case { wav, task, grow, level, channels, calls, blocks_per_call: blocks / calls, sig }
        })
        .boxed()
}

impl Prop for C23 {
    const ID: &'static str = "C23";
    type Case = C23Case;
    const RULE: &'static str = "a task (encode, re-encode, decode with some buffer size, seek, count, save, load) on an AdhocCodec or WavCodec stream of about 100000 samples cut into 1 to 50000 calls, and the same task with eight times the calls, samples per call or channels, or after one more call of seven times the audio; processor time (the least of several runs) must not grow more than threefold beyond that, and memory must stay within a multiple of the stream (where the task makes or saves one) plus one call; non-trivial = the large run takes more than 1 ms";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "proportional: 8 times the audio takes at most 24 times the processor time plus 4 ms, confirmed by repeated measurement",
    ];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 2400)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C23Case> {
        case()
    }
    fn directed(_: Tier) -> Vec<C23Case> {
        let mut v = Vec::new();
        for wav in [false, true] {
            for task in [Task::Encode, Task::Reencode, Task::Decode(1), Task::Decode(500), Task::Seek, Task::Count, Task::Save, Task::Load] {
                for (grow, channels, calls, blocks_per_call) in [
                    (Grow::Calls, 1, 20_000, 1),
                    (Grow::Calls, 2, 10, 2000),
                    (Grow::CallSize, 1, 1, 8000),
                    (Grow::CallSize, 1, 2, 30_000),
                    (Grow::CallSize, 2, 1, 8000),
                    (Grow::Channels, 500, 10, 8),
                    (Grow::Channels, 2, 1, 20_000),
                    (Grow::Lead, 1, 20_000, 4),
                    (Grow::Lead, 3, 20, 600),
                ] {
                    if (task, grow) == (Task::Seek, Grow::Lead) {
                        continue;
                    }
                    let sig = Seg::Noise { amp: 3000, seed: 1, n: 0 };
                    v.push(C23Case { wav, task, grow, level: 3, channels, calls, blocks_per_call, sig });
                }
            }
        }
        v
    }
    fn check(c: &C23Case, obs: &mut Obs) -> Result<(), String> {
        obs.label(if c.wav { "wav" } else { "adhoc" });
        obs.label(match c.task {
            Task::Encode => "encode",
            Task::Reencode => "re-encode",
            Task::Decode(_) => "decode",
            Task::Seek => "seek",
            Task::Count => "count",
            Task::Save => "save",
            Task::Load => "load",
        });
        obs.label(match c.grow {
            Grow::Calls => "more calls",
            Grow::CallSize => "larger calls",
            Grow::Channels => "more channels",
            Grow::Lead => "long call before short ones",
        });
        let (small, large) = C23::sizes(c);
        let (mut small_time, mut large_time) = (f64::MAX, f64::MAX);
        for attempt in 0..12 {
            let s = run(c, small)?;
            let l = run(c, large)?;
            obs.sub_executions += 2;
            check_memory(c, &s, small.channels)?;
            check_memory(c, &l, large.channels)?;
            small_time = small_time.min(s.time);
            large_time = large_time.min(l.time);
            if large_time <= GROWTH as f64 * TOLERANCE * small_time + NOISE {
                obs.nontrivial = large_time > 0.001;
                return Ok(());
            }
            // too much: measure again, for as long as this may be a disturbance
            if attempt > 2 && l.time > 5.0 {
                break;
            }
        }
        Err(format!(
            "{:?} takes {:.1} ms for {:?}, but {:.1} ms for {:?}",
            c.task, small_time * 1e3, small, large_time * 1e3, large
        ))
    }
}
