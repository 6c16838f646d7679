//! C10 and C17: arbitrary bytes given to the loaders.
use crate::codecs::*;
use adhoc_audio::{AdhocCodec, SeekFrom, Streamable, WavCodec};
use pbt::engine::{limit_case_allocation, Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use pbt::refcodec::RefFile;
use pbt::wavref::{Chunk, WavFile};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

// ---------------------------------------------------------------- byte-level edits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ByteEdit {
    Set(u32, u8),
    Flip(u32, u8),
    Word(u32, u32),
    Long(u32, u64),
    Truncate(u32),
    Insert(u32, Vec<u8>),
    Append(Vec<u8>),
    Remove(u32, u32),
}

fn any_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => 0u64..300,
        1 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => (0u32..64).prop_map(|k| (1u64 << k) - 1),
        1 => Just(u64::MAX),
    ]
    .boxed()
}

fn any_u32() -> BoxedStrategy<u32> {
    any_u64().prop_map(|x| if x > u32::MAX as u64 { (x >> 32) as u32 ^ x as u32 } else { x as u32 }).boxed()
}

pub fn byte_edit() -> BoxedStrategy<ByteEdit> {
    prop_oneof![
        4 => (any::<u32>(), any::<u8>()).prop_map(|(p, v)| ByteEdit::Set(p, v)),
        4 => (any::<u32>(), 0u8..8).prop_map(|(p, v)| ByteEdit::Flip(p, v)),
        2 => (any::<u32>(), any_u32()).prop_map(|(p, v)| ByteEdit::Word(p, v)),
        2 => (any::<u32>(), any_u64()).prop_map(|(p, v)| ByteEdit::Long(p, v)),
        2 => any::<u32>().prop_map(ByteEdit::Truncate),
        1 => (any::<u32>(), prop::collection::vec(any::<u8>(), 1..24)).prop_map(|(p, v)| ByteEdit::Insert(p, v)),
        1 => prop::collection::vec(any::<u8>(), 1..40).prop_map(ByteEdit::Append),
        1 => (any::<u32>(), 1u32..40).prop_map(|(p, n)| ByteEdit::Remove(p, n)),
    ]
    .boxed()
}

pub fn apply_bytes(b: &mut Vec<u8>, edits: &[ByteEdit]) {
    for e in edits {
        let at = |p: u32, b: &Vec<u8>| p as usize % (b.len() + 1);
        let put = |b: &mut Vec<u8>, p: usize, v: &[u8]| {
            for (i, x) in v.iter().enumerate() {
                if p + i < b.len() {
                    b[p + i] = *x;
                }
            }
        };
        match e {
            ByteEdit::Set(p, v) => {
                let i = at(*p, b);
                put(b, i, &[*v])
            }
            ByteEdit::Flip(p, k) => {
                let i = at(*p, b);
                if i < b.len() {
                    b[i] ^= 1 << k
                }
            }
            ByteEdit::Word(p, v) => {
                let i = at(*p, b);
                put(b, i, &v.to_le_bytes())
            }
            ByteEdit::Long(p, v) => {
                let i = at(*p, b);
                put(b, i, &v.to_le_bytes())
            }
            ByteEdit::Truncate(p) => {
                let i = at(*p, b);
                b.truncate(i)
            }
            ByteEdit::Insert(p, v) => {
                let i = at(*p, b);
                b.splice(i..i, v.iter().copied());
            }
            ByteEdit::Append(v) => b.extend(v),
            ByteEdit::Remove(p, n) => {
                let i = at(*p, b);
                let j = (i + *n as usize).min(b.len());
                b.drain(i..j);
            }
        }
    }
}

// ------------------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FieldEdit {
    Level(u32),
    Channels(u32),
    Rate(u32),
    NoInfo,
    HeaderCursor(u32),
    NibbleCount(u32),
    InitLen(u64, u64),
    Size(u16, u16),
    AllSizes(u16),
    BitCursorOf(u16, u64),
    History(u16, [i16; 3]),
    Nibble(u16, u8),
    AllNibbles(u8),
    InitWord(u16, u64),
    /// which list, new length
    Shorten(u8, u16),
    /// which list, how many more
    Lengthen(u8, u16),
    BitWord(u16, u64, u64),
    AllBits(bool),
    DropBits(u16),
    BitCursor(u64, u64),
    Capacity(u64, u64),
}

fn field_edit() -> BoxedStrategy<FieldEdit> {
    use FieldEdit::*;
    prop_oneof![
        2 => any_u32().prop_map(Level),
        2 => any_u32().prop_map(Channels),
        2 => (0u32..12).prop_map(Channels),
        1 => any_u32().prop_map(Rate),
        1 => Just(NoInfo),
        1 => any_u32().prop_map(HeaderCursor),
        2 => any_u32().prop_map(NibbleCount),
        1 => (any_u64(), any_u64()).prop_map(|(a, b)| InitLen(a, b)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(i, v)| Size(i, v)),
        2 => (any::<u16>(), 0u16..5).prop_map(|(i, v)| Size(i, v)),
        1 => prop_oneof![0u16..5, any::<u16>()].prop_map(AllSizes),
        3 => (any::<u16>(), any_u64()).prop_map(|(i, v)| BitCursorOf(i, v)),
        1 => (any::<u16>(), [i16_edge(), i16_edge(), i16_edge()]).prop_map(|(i, v)| History(i, v)),
        2 => (any::<u16>(), 0u8..16).prop_map(|(i, v)| Nibble(i, v)),
        1 => (0u8..16).prop_map(AllNibbles),
        2 => (any::<u16>(), any::<u64>()).prop_map(|(i, v)| InitWord(i, v)),
        4 => (0u8..6, 0u16..12).prop_map(|(w, n)| Shorten(w, n)),
        2 => (0u8..6, 1u16..70).prop_map(|(w, n)| Lengthen(w, n)),
        2 => (any::<u16>(), any_u64(), any_u64()).prop_map(|(i, a, b)| BitWord(i, a, b)),
        2 => any::<bool>().prop_map(AllBits),
        2 => (0u16..200).prop_map(DropBits),
        2 => (any_u64(), any_u64()).prop_map(|(a, b)| BitCursor(a, b)),
        1 => (any_u64(), any_u64()).prop_map(|(a, b)| Capacity(a, b)),
    ]
    .boxed()
}

fn wide(a: u64, b: u64) -> u128 {
    // mostly small, sometimes near the top of the range
    if b % 3 == 0 { a as u128 | (b as u128) << 64 } else { a as u128 }
}

fn apply_fields(f: &mut RefFile, edits: &[FieldEdit]) {
    for e in edits {
        let idx = |i: u16, n: usize| (n > 0).then(|| i as usize % n.max(1));
        match *e {
            FieldEdit::Level(v) => f.level = v,
            FieldEdit::Channels(v) => {
                if let Some(i) = &mut f.info {
                    i.1 = v
                }
            }
            FieldEdit::Rate(v) => {
                if let Some(i) = &mut f.info {
                    i.0 = v
                }
            }
            FieldEdit::NoInfo => f.info = None,
            FieldEdit::HeaderCursor(v) => f.header_cursor = v,
            FieldEdit::NibbleCount(v) => f.nibble_count = v,
            FieldEdit::InitLen(a, b) => f.init_len = wide(a, b),
            FieldEdit::Size(i, v) => {
                if let Some(i) = idx(i, f.sizes.len()) {
                    f.sizes[i] = v
                }
            }
            FieldEdit::AllSizes(v) => f.sizes.iter_mut().for_each(|s| *s = v),
            FieldEdit::BitCursorOf(i, v) => {
                if let Some(i) = idx(i, f.cursors.len()) {
                    f.cursors[i] = v
                }
            }
            FieldEdit::History(i, v) => {
                if let Some(i) = idx(i, f.history.len()) {
                    f.history[i] = v
                }
            }
            FieldEdit::Nibble(i, v) => {
                if let Some(k) = idx(i, f.nibbles.len()) {
                    let sh = 4 * (i as usize / f.nibbles.len().max(1) % 2);
                    f.nibbles[k] = f.nibbles[k] & !(15 << sh) | v << sh
                }
            }
            FieldEdit::AllNibbles(v) => f.nibbles.iter_mut().for_each(|n| *n = v | v << 4),
            FieldEdit::InitWord(i, v) => {
                if let Some(i) = idx(i, f.init_words.len()) {
                    f.init_words[i] = v
                }
            }
            FieldEdit::Shorten(w, n) => {
                let n = n as usize;
                match w {
                    0 => f.nibbles.truncate(n),
                    1 => f.init_words.truncate(n),
                    2 => f.sizes.truncate(n),
                    3 => f.cursors.truncate(n),
                    4 => f.history.truncate(n),
                    _ => f.bits.truncate(n),
                }
            }
            FieldEdit::Lengthen(w, n) => {
                let n = n as usize;
                match w {
                    0 => f.nibbles.resize(f.nibbles.len() + n, 0x21),
                    1 => f.init_words.resize(f.init_words.len() + n, 5),
                    2 => f.sizes.resize(f.sizes.len() + n, 7),
                    3 => f.cursors.resize(f.cursors.len() + n, 9),
                    4 => f.history.resize(f.history.len() + n, [1, 2, 3]),
                    _ => f.bits.resize(f.bits.len() + n, u128::MAX / 3),
                }
            }
            FieldEdit::BitWord(i, a, b) => {
                if let Some(i) = idx(i, f.bits.len()) {
                    f.bits[i] = a as u128 | (b as u128) << 64
                }
            }
            FieldEdit::AllBits(one) => f.bits.iter_mut().for_each(|b| *b = if one { !0 } else { 0 }),
            FieldEdit::DropBits(n) => f.bits.truncate(n as usize % (f.bits.len() + 1)),
            FieldEdit::BitCursor(a, b) => f.bit_cursor = wide(a, b),
            FieldEdit::Capacity(a, b) => f.capacity = wide(a, b),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HNav {
    Decode(u16),
    Init,
    Seek(u64),
    Permille(u16),
    Save,
    Count,
}

fn hnav() -> BoxedStrategy<HNav> {
    prop_oneof![
        2 => (0u16..600).prop_map(HNav::Decode),
        1 => Just(HNav::Init),
        3 => any_u64().prop_map(HNav::Seek),
        4 => (0u16..1300).prop_map(HNav::Permille),
        1 => Just(HNav::Save),
        1 => Just(HNav::Count),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Case {
    base: Stream,
    fields: Vec<FieldEdit>,
    bytes: Vec<ByteEdit>,
    /// replaces everything else when present
    raw: Option<Vec<u8>>,
    ops: Vec<HNav>,
}

fn small_stream() -> BoxedStrategy<Stream> {
    (rate(), prop_oneof![4 => 1u32..=3, 1 => 4u32..=9], level(), signal(Domain::Any, 60), prop::collection::vec(1u32..40, 1..4))
        .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts })
        .boxed()
}

fn alloc_budget(len: usize) -> usize {
    (64 << 20) + (len << 14)
}

/// more samples than this are not drained from one hostile file
const DRAIN: usize = 3_000_000;

pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    type Case = C10Case;
    const RULE: &'static str = "a valid small file with 0-4 field edits (level, channels, list lengths, counts, sizes, parameters, flags, cursors, payload bits), 0-4 byte edits (set, flip, overwrite, cut, insert, append, remove), or arbitrary bytes; then 0-6 decode/seek/rewind/count/save operations on whatever loads; non-trivial = the bytes differ from the valid file and load accepted them, or at least 40 bytes were rejected";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "'out of proportion' is taken as more than 64 MiB + 16 KiB per input byte",
        "a case that takes 90 s of processor time (normally milliseconds) is taken to never end",
    ];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 160_000 } else { 6_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C10Case> {
        (
            small_stream(),
            prop_oneof![1 => prop::collection::vec(field_edit(), 0..=0), 3 => prop::collection::vec(field_edit(), 1..=1), 3 => prop::collection::vec(field_edit(), 2..=4)],
            prop_oneof![4 => prop::collection::vec(byte_edit(), 0..=0), 2 => prop::collection::vec(byte_edit(), 1..=4)],
            prop_oneof![14 => Just(None), 1 => prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), any::<u8>()], 0..400).prop_map(Some)],
            prop::collection::vec(hnav(), 0..=6),
        )
            .prop_map(|(base, fields, bytes, raw, ops)| C10Case { base, fields, bytes, raw, ops })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C10Case> {
        let base = Stream {
            rate: 8000, ch: 2, level: 3,
            sig: Signal { segs: vec![Seg::Noise { amp: 20_000, seed: 4, n: 40 }], frac: 0, mono: false, mute: 0 },
            cuts: vec![7],
        };
        let ops = vec![HNav::Seek(u64::MAX), HNav::Permille(500), HNav::Decode(9), HNav::Seek(3), HNav::Save, HNav::Count];
        let mut v = Vec::new();
        let mut add = |fields: Vec<FieldEdit>| v.push(C10Case { base: base.clone(), fields, bytes: vec![], raw: None, ops: ops.clone() });
        for l in [11u32, 31, 32, 63, 64, 128, u32::MAX] {
            add(vec![FieldEdit::Level(l)]);
        }
        for c in [0u32, 1, 3, 5, 6, 12, 13, 255, 65_535, 65_536, 1 << 20, 1 << 31, u32::MAX] {
            add(vec![FieldEdit::Channels(c)]);
        }
        for w in 0u8..6 {
            for n in [0u16, 1, 5, 11] {
                add(vec![FieldEdit::Shorten(w, n)]);
            }
            for n in [1u16, 2, 65] {
                add(vec![FieldEdit::Lengthen(w, n)]);
            }
        }
        for c in [0u64, 1, 127, 128, 1 << 20, 1 << 40, 1 << 62, 1 << 63, u64::MAX - 127, u64::MAX] {
            for i in [0u16, 4, 11] {
                add(vec![FieldEdit::BitCursorOf(i, c)]);
            }
            add(vec![FieldEdit::BitCursor(c, 0)]);
            add(vec![FieldEdit::BitCursor(c, u64::MAX)]);
            add(vec![FieldEdit::Capacity(c, u64::MAX)]);
        }
        for n in [0u32, 1, 2, 13, 14, 23, 24, 25, 100, 1 << 31, u32::MAX] {
            add(vec![FieldEdit::NibbleCount(n)]);
            add(vec![FieldEdit::HeaderCursor(n)]);
            // consistent lists of another length
            add(vec![FieldEdit::NibbleCount(n), FieldEdit::Lengthen(0, 40), FieldEdit::Lengthen(1, 3)]);
        }
        for k in 0u8..16 {
            add(vec![FieldEdit::AllNibbles(k), FieldEdit::AllBits(true)]);
            add(vec![FieldEdit::AllNibbles(k), FieldEdit::AllBits(false)]);
            add(vec![FieldEdit::AllNibbles(k), FieldEdit::AllSizes(2)]);
        }
        for s in [0u16, 1, 2, 3, 65_535] {
            add(vec![FieldEdit::AllSizes(s)]);
            add(vec![FieldEdit::Size(0, s)]);
            add(vec![FieldEdit::Size(3, s)]);
        }
        for w in [0u64, 1, !0, 0xAAAA] {
            add(vec![FieldEdit::InitWord(0, w)]);
        }
        add(vec![FieldEdit::NoInfo]);
        v
    }
    fn check(c: &C10Case, obs: &mut Obs) -> Result<(), String> {
        let samples = c.base.samples();
        let valid = save_adhoc(&c.base.build(&samples))?;
        let bytes = match &c.raw {
            Some(r) => {
                obs.label("arbitrary bytes");
                r.clone()
            }
            None => {
                let mut f = RefFile::parse(&valid).map_err(|e| format!("saved file is not in the layout: {}", e))?;
                apply_fields(&mut f, &c.fields);
                let mut b = f.to_bytes();
                apply_bytes(&mut b, &c.bytes);
                b
            }
        };
        limit_case_allocation(alloc_budget(bytes.len()));
        let loaded = AdhocCodec::load(&bytes[..]);
        let mut codec = match loaded {
            Some(x) => x,
            None => {
                obs.label("rejected");
                obs.nontrivial = bytes.len() >= 40;
                return Ok(());
            }
        };
        obs.label("accepted");
        obs.nontrivial = bytes != valid;
        let info = Streamable::info(&codec);
        let ch = info.channels();
        let (f, _) = RefFile::parse_prefix(&bytes).map_err(|e| format!("load accepted a file that {}", e))?;
        // what the declared frames can hold
        let declared: u128 = f.sizes.iter().take(f.nibble_count as usize).map(|&s| s.max(3) as u128).sum();
        let bound = declared * ch as u128;
        let mut total: u128 = 0;
        let mut drain = |codec: &mut AdhocCodec, when: &str| -> Result<(), String> {
            let mut buf = vec![0.0f32; 4096.max(ch.min(1 << 20))];
            let mut got = 0u128;
            while let Some(n) = dec(codec, &mut buf) {
                ensure!(n > 0 && n <= buf.len(), "{}: decode returned Some({}) for {}", when, n, buf.len());
                got += n as u128;
                ensure!(got <= bound, "{}: {} samples decoded, the frames declare at most {}", when, got, bound);
                if got as usize > DRAIN {
                    break;
                }
            }
            total = total.max(got);
            Ok(())
        };
        codec.calculate_sample_count_per_channel();
        Streamable::filesize_upperbound(&codec);
        drain(&mut codec, "from the start")?;
        for op in &c.ops {
            match *op {
                HNav::Decode(n) => {
                    dec(&mut codec, &mut vec![0.0; n as usize]);
                }
                HNav::Init => codec.init(),
                HNav::Seek(ms) => {
                    codec.seek(SeekFrom::Start(ms));
                    if codec.calculate_sample_count_per_channel() < 100_000 {
                        drain(&mut codec, "after a seek")?;
                        codec.seek(SeekFrom::Start(ms));
                    }
                }
                HNav::Permille(p) => {
                    let n = codec.calculate_sample_count_per_channel();
                    let ms = (n as u128 * 1000 / (info.frequency() as u128).max(1) * p as u128 / 1000) as u64;
                    codec.seek(SeekFrom::Start(ms));
                    if n < 100_000 {
                        drain(&mut codec, "after a seek")?;
                    }
                }
                HNav::Save => {
                    let b = save_adhoc(&codec)?;
                    if let Some(mut again) = AdhocCodec::load(&b[..]) {
                        dec(&mut again, &mut vec![0.0; 2 * ch.min(1 << 16)]);
                    }
                }
                HNav::Count => {
                    codec.calculate_sample_count_per_channel();
                    Streamable::filesize_upperbound(&codec);
                }
            }
        }
        obs.label_if(total > 0, "decoded something");
        save_adhoc(&codec)?;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WNav {
    Decode(u16),
    Start(u64),
    Current(i64),
    End(i64),
    Encode(u16),
    Save,
}

fn any_i64() -> BoxedStrategy<i64> {
    prop_oneof![any::<i64>(), -400i64..400, Just(i64::MIN), Just(i64::MAX), any_u64().prop_map(|x| x as i64)].boxed()
}

fn wnav() -> BoxedStrategy<WNav> {
    prop_oneof![
        2 => (0u16..300).prop_map(WNav::Decode),
        2 => any_u64().prop_map(WNav::Start),
        2 => any_i64().prop_map(WNav::Current),
        2 => any_i64().prop_map(WNav::End),
        2 => (0u16..40).prop_map(WNav::Encode),
        1 => Just(WNav::Save),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17Case {
    file: WavFile,
    bytes: Vec<ByteEdit>,
    raw: Option<Vec<u8>>,
    ops: Vec<WNav>,
}

fn hostile_chunk() -> BoxedStrategy<Chunk> {
    (
        prop_oneof![Just(*b"LIST"), Just(*b"fact"), Just(*b"data"), Just(*b"fmt "), any::<[u8; 4]>()],
        prop::collection::vec(prop_oneof![4 => any::<u8>(), 1 => Just(b'd'), 1 => Just(b'a'), 1 => Just(b't')], 0..90),
    )
        .prop_map(|(id, body)| Chunk { id, body })
        .boxed()
}

fn hostile_wav() -> BoxedStrategy<WavFile> {
    (
        prop_oneof![6 => Just(1u16), 1 => any::<u16>()],
        prop_oneof![4 => 1u16..=8, 2 => any::<u16>(), 1 => prop::sample::select(vec![0u16, 0x7fff, 0x8000, 0xffff])],
        prop_oneof![3 => rate(), 2 => any_u32()],
        prop_oneof![4 => Just(16u16), 3 => Just(8u16), 1 => any::<u16>()],
        prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 0..40)],
        prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(hostile_chunk(), 1..4)],
        prop::collection::vec(any::<u8>(), 0..300),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(hostile_chunk(), 1..3)],
    )
        .prop_map(|(format, channels, rate, bits, fmt_extra, before, data, after)| WavFile {
            format, channels, rate, bits, fmt_extra, before, data, after,
        })
        .boxed()
}

pub struct C17;
impl Prop for C17 {
    const ID: &'static str = "C17";
    type Case = C17Case;
    const RULE: &'static str = "a RIFF/WAVE file with arbitrary header fields, extra/duplicate/misnamed chunks and 0-300 data bytes, then 0-5 byte edits (set, flip, overwrite, cut, insert, append, remove), or arbitrary bytes; then 0-8 decode/seek/encode/save operations on whatever loads; non-trivial = accepted with at least one operation, or rejected although the RIFF magic is intact";
    const ASSUMPTIONS: &'static [&'static str] = &["'out of proportion' is taken as more than 64 MiB + 16 KiB per input byte"];
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 600_000 } else { 20_000_000 }
    }
    fn strategy(_: Tier) -> BoxedStrategy<C17Case> {
        (
            hostile_wav(),
            prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(byte_edit(), 1..=5)],
            prop_oneof![14 => Just(None), 1 => prop::collection::vec(any::<u8>(), 0..400).prop_map(Some)],
            prop::collection::vec(wnav(), 0..=8),
        )
            .prop_map(|(file, bytes, raw, ops)| C17Case { file, bytes, raw, ops })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C17Case> {
        let plain = |channels: u16, rate: u32, bits: u16, n: usize| WavFile {
            format: 1, channels, rate, bits,
            fmt_extra: vec![], before: vec![],
            data: (0..n).map(|i| (i * 37) as u8).collect(),
            after: vec![],
        };
        let ops = vec![
            WNav::Decode(3), WNav::Start(0), WNav::Start(u64::MAX), WNav::Current(i64::MIN), WNav::Current(i64::MAX),
            WNav::End(i64::MIN), WNav::End(i64::MAX), WNav::End(0), WNav::Encode(5), WNav::Save, WNav::Decode(300),
        ];
        let mut v = Vec::new();
        for ch in [0u16, 1, 2, 3, 255, 0x7fff, 0x8000, 0xffff] {
            for rate in [0u32, 1, 44_100, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                for bits in [8u16, 16] {
                    v.push(C17Case { file: plain(ch, rate, bits, 280), bytes: vec![], raw: None, ops: ops.clone() });
                }
            }
        }
        // every length around the header, and the data tag at every offset of the first 300 bytes
        for n in 0..60u32 {
            v.push(C17Case { file: plain(1, 8000, 16, 10), bytes: vec![ByteEdit::Truncate(n)], raw: None, ops: ops.clone() });
        }
        for pad in 0..300usize {
            let mut file = plain(2, 8000, 16, 300);
            if pad % 2 == 0 {
                file.before = vec![Chunk { id: *b"junk", body: vec![7; pad] }];
                v.push(C17Case { file, bytes: vec![], raw: None, ops: ops.clone() });
            } else {
                let mut raw = vec![0u8; pad];
                raw.extend(b"data");
                raw.resize(300, 1);
                v.push(C17Case { file, bytes: vec![], raw: Some(raw), ops: ops.clone() });
            }
        }
        v
    }
    fn check(c: &C17Case, obs: &mut Obs) -> Result<(), String> {
        let bytes = match &c.raw {
            Some(r) => {
                obs.label("arbitrary bytes");
                r.clone()
            }
            None => {
                let mut b = c.file.to_bytes();
                apply_bytes(&mut b, &c.bytes);
                b
            }
        };
        limit_case_allocation(alloc_budget(bytes.len()));
        let mut w = match WavCodec::load(Cursor::new(&bytes)) {
            Ok(w) => w,
            Err(_) => {
                obs.label("rejected");
                obs.nontrivial = bytes.starts_with(b"RIFF");
                return Ok(());
            }
        };
        obs.label("accepted");
        obs.nontrivial = !c.ops.is_empty();
        let ch = Streamable::info(&w).channels();
        // a codec whose blocks are larger than any buffer still has to be usable
        let block = ch.clamp(1, 1 << 17);
        let out = decode_rest_bounded(&mut w, 64.max(block), bytes.len())?;
        obs.label_if(out > 0, "decoded something");
        for op in &c.ops {
            match *op {
                WNav::Decode(n) => {
                    dec(&mut w, &mut vec![0.0; n as usize]);
                }
                WNav::Start(ms) => w.seek(SeekFrom::Start(ms)),
                WNav::Current(ms) => w.seek(SeekFrom::Current(ms)),
                WNav::End(ms) => w.seek(SeekFrom::End(ms)),
                WNav::Encode(n) => {
                    enc(&mut w, &vec![0.25; n as usize]);
                }
                WNav::Save => {
                    let _ = save_wav(&w)?;
                }
            }
            Streamable::filesize_upperbound(&w);
        }
        let saved = save_wav(&w)?;
        ensure!(saved.len() >= 44, "saved file of {} bytes", saved.len());
        Ok(())
    }
}

fn decode_rest_bounded(w: &mut WavCodec, buf_len: usize, max: usize) -> Result<usize, String> {
    let mut buf = vec![0.0f32; buf_len];
    let mut total = 0;
    while let Some(n) = dec(w, &mut buf) {
        let ch = Streamable::info(w).channels();
        ensure!(n > 0 && n <= buf.len(), "decode returned Some({}) for a buffer of {}", n, buf.len());
        ensure!(n % ch == 0, "decode returned {} samples, which are no whole blocks of {}", n, ch);
        total += n;
        ensure!(total <= max, "{} samples decoded from {} bytes", total, max);
    }
    Ok(total)
}

