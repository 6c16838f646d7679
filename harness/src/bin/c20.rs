//! C20: the bit stream against a list of values.
use adhoc_audio::verif_hooks::{BitStream, CAPPED_MAX, CAPPED_MIN};
use pbt::engine::{run, Obs, Prop, Tier};
use pbt::ensure;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// One value and the way it is written. u128 values are kept as two halves (JSON has no u128).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    /// write_bits of a value whose bits beyond `n` are not necessarily zero
    Bits { hi: u64, lo: u64, n: u8 },
    Bit(u8),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u64, u64),
    Rice { exp: u8, v: i16 },
    /// divisor 2^exp
    Divisor { exp: u8, v: i16 },
    /// divisor 2^exp, exp 1..=4
    Capped { exp: u8, v: i16 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Write(Val),
    /// `count` times the same write
    Repeat(Val, u8),
    /// read `count` values from the current position
    Read(u8),
    Peek,
    /// to the boundary before the value number `to` (modulo the number of boundaries)
    MoveTo(u16),
    Start,
    /// drops everything from the position on
    Truncate,
    Zero,
    Serialise,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Case {
    Ops { mega_bytes: u8, ops: Vec<Op> },
    /// one value of `width` bits at every offset 0..128, between two marks
    Widths { width: u8, hi: u64, lo: u64 },
    /// every i16 in `from..=to` with parameter `exp`, at every kind of offset, between two marks
    RiceAll { exp: u8, from: i16, to: i16 },
    CappedAll { exp: u8 },
}

fn wide(hi: u64, lo: u64) -> u128 {
    (hi as u128) << 64 | lo as u128
}

fn mask(n: u32) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}

fn write_capped(s: &mut BitStream, exp: u8, v: i16) {
    match exp {
        0 => s.write_compressed_capped::<1>(v),
        1 => s.write_compressed_capped::<2>(v),
        2 => s.write_compressed_capped::<4>(v),
        3 => s.write_compressed_capped::<8>(v),
        4 => s.write_compressed_capped::<16>(v),
        5 => s.write_compressed_capped::<32>(v),
        6 => s.write_compressed_capped::<64>(v),
        7 => s.write_compressed_capped::<128>(v),
        8 => s.write_compressed_capped::<256>(v),
        9 => s.write_compressed_capped::<512>(v),
        _ => s.write_compressed_capped::<1024>(v),
    }
}

impl Val {
    fn write(&self, s: &mut BitStream) {
        match *self {
            Val::Bits { hi, lo, n } => s.write_bits(wide(hi, lo), n as usize),
            Val::Bit(b) => s.write_bit(b),
            Val::U8(v) => s.write(v),
            Val::U16(v) => s.write(v),
            Val::U32(v) => s.write(v),
            Val::U64(v) => s.write(v),
            Val::U128(hi, lo) => s.write(wide(hi, lo)),
            Val::Rice { exp, v } => s.write_compressed(exp as i16, v),
            Val::Divisor { exp, v } => s.write_compressed_divisor(1i16 << exp, v),
            Val::Capped { exp, v } => write_capped(s, exp, v),
        }
    }

    /// number of bits for values of fixed width
    fn fixed_width(&self) -> Option<u32> {
        match *self {
            Val::Bits { n, .. } => Some(n as u32),
            Val::Bit(_) => Some(1),
            Val::U8(_) => Some(8),
            Val::U16(_) => Some(16),
            Val::U32(_) => Some(32),
            Val::U64(_) => Some(64),
            Val::U128(..) => Some(128),
            _ => None,
        }
    }

    fn expected(&self) -> i128 {
        match *self {
            Val::Bits { hi, lo, n } => (wide(hi, lo) & mask(n as u32)) as i128,
            Val::Bit(b) => (b & 1) as i128,
            Val::U8(v) => v as i128,
            Val::U16(v) => v as i128,
            Val::U32(v) => v as i128,
            Val::U64(v) => v as i128,
            Val::U128(hi, lo) => wide(hi, lo) as i128,
            Val::Rice { v, .. } | Val::Divisor { v, .. } | Val::Capped { v, .. } => v as i128,
        }
    }

    fn read(&self, s: &mut BitStream) -> i128 {
        match *self {
            Val::Bits { n, .. } => s.read_bits(n as usize) as i128,
            Val::Bit(_) => s.read_bit() as i128,
            Val::U8(_) => s.read::<u8>() as i128,
            Val::U16(_) => s.read::<u16>() as i128,
            Val::U32(_) => s.read::<u32>() as i128,
            Val::U64(_) => s.read::<u64>() as i128,
            Val::U128(..) => s.read::<u128>() as i128,
            Val::Rice { exp, .. } => s.read_compressed(exp as i16) as i128,
            Val::Divisor { exp, .. } => s.read_compressed_divisor(1i16 << exp) as i128,
            Val::Capped { exp, .. } => s.read_compressed_capped(1i16 << exp) as i128,
        }
    }

    fn peek(&self, s: &mut BitStream) -> Option<i128> {
        Some(match *self {
            Val::Bits { n, .. } => s.peek_bits(n as usize) as i128,
            Val::Bit(_) => s.peek_bits(1) as i128,
            Val::U8(_) => s.peek::<u8>() as i128,
            Val::U16(_) => s.peek::<u16>() as i128,
            Val::U32(_) => s.peek::<u32>() as i128,
            Val::U64(_) => s.peek::<u64>() as i128,
            Val::U128(..) => s.peek::<u128>() as i128,
            _ => return None,
        })
    }
}

/// Values written, where each starts, and which one comes next.
struct Model {
    vals: Vec<Val>,
    starts: Vec<u128>,
    end: u128,
    next: usize,
    high_water: u128,
}

impl Model {
    fn pos(&self) -> u128 {
        self.starts.get(self.next).copied().unwrap_or(self.end)
    }
}

fn agree(s: &BitStream, m: &Model) -> Result<(), String> {
    ensure!(
        s.bit_cursor() == m.pos(),
        "cursor is {} but should be {}",
        s.bit_cursor(),
        m.pos()
    );
    ensure!(s.len() as u128 == m.pos(), "len is {} at position {}", s.len(), m.pos());
    ensure!(
        s.capacity() as u128 == m.high_water,
        "capacity is {} but the highest position was {}",
        s.capacity(),
        m.high_water
    );
    ensure!(
        s.capacity_upperbound() == s.blocks_allocated() * 128,
        "{} bits in {} blocks",
        s.capacity_upperbound(),
        s.blocks_allocated()
    );
    ensure!(
        s.capacity_upperbound() as u128 >= m.high_water,
        "{} bits written into {} allocated",
        m.high_water,
        s.capacity_upperbound()
    );
    Ok(())
}

fn read_one(s: &mut BitStream, m: &mut Model) -> Result<(), String> {
    let v = m.vals[m.next].clone();
    let at = m.pos();
    let got = v.read(s);
    ensure!(
        got == v.expected(),
        "value {} ({:?} at bit {}) reads as {}, not {}",
        m.next,
        v,
        at,
        got,
        v.expected()
    );
    m.next += 1;
    agree(s, m)
}

fn write_one(s: &mut BitStream, m: &mut Model, v: &Val, obs: &mut Obs) -> Result<(), String> {
    let at = s.bit_cursor();
    if m.next < m.vals.len() {
        obs.label("overwrites older values");
    }
    m.vals.truncate(m.next);
    m.starts.truncate(m.next);
    v.write(s);
    let end = s.bit_cursor();
    ensure!(end >= at, "writing {:?} moved the cursor from {} to {}", v, at, end);
    if let Some(w) = v.fixed_width() {
        ensure!(
            end - at == w as u128,
            "writing {:?} moved the cursor by {}",
            v,
            end - at
        );
    }
    if at / 128 != end / 128 && end % 128 != 0 {
        obs.label("crosses a chunk boundary");
        obs.nontrivial = true;
    }
    obs.label_if(end - at > 256, "longer than two chunks");
    m.vals.push(v.clone());
    m.starts.push(at);
    m.end = end;
    m.next = m.vals.len();
    m.high_water = m.high_water.max(end);
    agree(s, m)
}

fn check_ops(mega_bytes: u8, ops: &[Op], obs: &mut Obs) -> Result<(), String> {
    let mut s = if mega_bytes == 0 {
        BitStream::new()
    } else {
        BitStream::with_capacity_in_megabytes(mega_bytes as usize - 1)
    };
    ensure!(s.capacity_upperbound() == 0, "a new stream has {} bits", s.capacity_upperbound());
    let mut m = Model {
        vals: vec![],
        starts: vec![],
        end: 0,
        next: 0,
        high_water: 0,
    };
    agree(&s, &m)?;
    for op in ops {
        match op {
            Op::Write(v) => write_one(&mut s, &mut m, v, obs)?,
            Op::Repeat(v, n) => {
                for _ in 0..*n {
                    write_one(&mut s, &mut m, v, obs)?;
                }
            }
            Op::Read(n) => {
                for _ in 0..*n {
                    if m.next < m.vals.len() {
                        read_one(&mut s, &mut m)?;
                        obs.label("reads in the middle");
                    }
                }
            }
            Op::Peek => {
                if let Some(v) = m.vals.get(m.next).cloned() {
                    if let Some(got) = v.peek(&mut s) {
                        ensure!(
                            got == v.expected(),
                            "peeking {:?} gives {} not {}",
                            v,
                            got,
                            v.expected()
                        );
                        obs.label("peeks");
                    }
                    agree(&s, &m)?;
                }
            }
            Op::MoveTo(to) => {
                m.next = *to as usize % (m.vals.len() + 1);
                s.set_bit_cursor(m.pos());
                agree(&s, &m)?;
            }
            Op::Start => {
                m.next = 0;
                s.seek_start();
                agree(&s, &m)?;
            }
            Op::Truncate => {
                let at = m.pos();
                s.truncate();
                m.vals.truncate(m.next);
                m.starts.truncate(m.next);
                m.end = at;
                m.high_water = m.high_water.min(at);
                obs.label("truncates");
                ensure!(s.peek_bits(128) == 0, "bits are left after truncate()");
                ensure!(s.capacity_upperbound() as u128 <= at + 128, "memory is left after truncate()");
                agree(&s, &m)?;
            }
            Op::Zero => {
                s.zero();
                // positions and sizes stay, every value becomes as many zeros
                let at = m.pos();
                agree(&s, &m)?;
                let (old, next) = (std::mem::take(&mut m.starts), m.next);
                m.vals.clear();
                for (k, &start) in old.iter().enumerate() {
                    if k == next {
                        m.next = m.vals.len();
                    }
                    let end = old.get(k + 1).copied().unwrap_or(m.end);
                    let mut from = start;
                    while from < end || from == start {
                        let n = (end - from).min(128) as u8;
                        m.vals.push(Val::Bits { hi: 0, lo: 0, n });
                        m.starts.push(from);
                        from += n.max(1) as u128;
                    }
                }
                if at == m.end {
                    m.next = m.vals.len();
                }
                for k in 0..s.blocks_allocated() {
                    s.set_bit_cursor(k as u128 * 128);
                    ensure!(s.peek_bits(128) == 0, "bits are left in chunk {} after zero() at bit {}", k, at);
                }
                s.set_bit_cursor(at);
                obs.label("zeroes");
                agree(&s, &m)?;
            }
            Op::Serialise => {
                let bytes = bincode::serialize(&s).map_err(|e| e.to_string())?;
                s = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                agree(&s, &m)?;
                obs.label("serialised");
            }
        }
    }
    m.next = 0;
    s.seek_start();
    while m.next < m.vals.len() {
        read_one(&mut s, &mut m)?;
    }
    Ok(())
}

fn between_marks(at: u32, v: &Val) -> Result<(), String> {
    let mut s = BitStream::new();
    // a first run leaves ones everywhere, so that an overwrite that keeps old bits shows
    for _ in 0..4 {
        s.write_bits(!0u128, 128);
    }
    s.seek_start();
    if at > 0 {
        s.write_bits(!0u128, at as usize);
    }
    v.write(&mut s);
    let end = s.bit_cursor();
    s.write_bits(0b1011u8, 4);
    s.write_bits(0u8, 7);
    s.seek_start();
    if at > 0 {
        let got = s.read_bits(at as usize);
        ensure!(got == mask(at), "{:?} at bit {} disturbs the bits before", v, at);
    }
    let got = v.read(&mut s);
    ensure!(got == v.expected(), "{:?} at bit {} reads as {}", v, at, got);
    ensure!(s.bit_cursor() == end, "{:?} at bit {}: read ends at {} instead of {}", v, at, s.bit_cursor(), end);
    let got = s.read_bits(11);
    ensure!(got == 0b1011, "{:?} at bit {}: what follows reads as {:b}", v, at, got);
    Ok(())
}

pub struct C20;

fn i16s() -> BoxedStrategy<i16> {
    prop_oneof![
        3 => -40i16..40,
        2 => any::<i16>(),
        1 => proptest::sample::select(vec![
            0i16, 1, -1, 127, 128, -128, 255, 256, 8191, -8192, 16384, -16384, 32767, -32767, -32768
        ]),
        2 => (0u32..16, -2i16..=2, any::<bool>()).prop_map(|(k, d, s)| {
            let v = ((1i32 << k) + d as i32) as i16;
            if s { v.wrapping_neg() } else { v }
        }),
    ]
    .boxed()
}

fn u64s() -> BoxedStrategy<u64> {
    prop_oneof![Just(0u64), Just(!0u64), any::<u64>(), (0u32..64).prop_map(|k| 1 << k)].boxed()
}

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        4 => (u64s(), u64s(), prop_oneof![4 => 1u8..=128, 1 => Just(128u8), 2 => 1u8..=16, 1 => Just(0u8)])
            .prop_map(|(hi, lo, n)| Val::Bits { hi, lo, n }),
        2 => any::<u8>().prop_map(Val::Bit),
        1 => any::<u8>().prop_map(Val::U8),
        1 => any::<u16>().prop_map(Val::U16),
        1 => any::<u32>().prop_map(Val::U32),
        1 => u64s().prop_map(Val::U64),
        1 => (u64s(), u64s()).prop_map(|(a, b)| Val::U128(a, b)),
        6 => (0u8..16, i16s()).prop_map(|(exp, v)| Val::Rice { exp, v }),
        2 => (0u8..15, i16s()).prop_map(|(exp, v)| Val::Divisor { exp, v }),
        3 => (0u8..=10, i16s().prop_map(|v| v.clamp(CAPPED_MIN, CAPPED_MAX)))
            .prop_map(|(exp, v)| Val::Capped { exp, v }),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        12 => val().prop_map(Op::Write),
        1 => (val(), 2u8..20).prop_map(|(v, n)| Op::Repeat(v, n)),
        2 => (1u8..10).prop_map(Op::Read),
        1 => Just(Op::Peek),
        3 => any::<u16>().prop_map(Op::MoveTo),
        1 => Just(Op::Start),
        1 => Just(Op::Truncate),
        1 => Just(Op::Serialise),
    ]
    .boxed()
}

impl Prop for C20 {
    const ID: &'static str = "C20";
    type Case = Case;
    const RULE: &'static str = "random sequences of writes (fixed widths 0 to 128 with and without stray high bits, typed values, bits, Rice codes with parameter 0 to 15 of any i16, capped codes), reads, peeks, moves to an earlier or later value boundary, truncating, zeroing and serialisation; directed: every width at every offset, every i16 with every Rice parameter; non-trivial: a value crosses a 128-bit chunk boundary";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "capped codes are given values from CAPPED_MIN to CAPPED_MAX (documented) and divisors that are powers of two",
        "the cursor is only ever moved to the start of a value written before or to the end of the last one",
    ];
    fn cases(tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 400_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![20 => Just(0u8), 1 => 1u8..3],
            prop_oneof![
                40 => proptest::collection::vec(op(), 1..12),
                30 => proptest::collection::vec(op(), 1..60),
                10 => proptest::collection::vec(op(), 60..200),
                10 => proptest::collection::vec(prop_oneof![20 => op(), 1 => Just(Op::Zero)], 1..60),
                1 => proptest::collection::vec(op(), 258..700),
            ],
        )
            .prop_map(|(mega_bytes, ops)| Case::Ops { mega_bytes, ops })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<Case> {
        let mut cases = Vec::new();
        for width in 0..=128u8 {
            for (hi, lo) in [(!0, !0), (0, 0), (0xA5A5_5A5A_0F0F_F0F1, 0x8123_4567_89AB_CDEF)] {
                cases.push(Case::Widths { width, hi, lo });
            }
        }
        for exp in 0..16u8 {
            for k in 0..8i32 {
                cases.push(Case::RiceAll {
                    exp,
                    from: (-32768 + k * 8192) as i16,
                    to: (-32768 + k * 8192 + 8191) as i16,
                });
            }
        }
        for exp in 0..=10u8 {
            cases.push(Case::CappedAll { exp });
        }
        cases
    }
    fn check(case: &Case, obs: &mut Obs) -> Result<(), String> {
        match case {
            Case::Ops { mega_bytes, ops } => check_ops(*mega_bytes, ops, obs),
            Case::Widths { width, hi, lo } => {
                obs.label("every offset for one width");
                obs.nontrivial = true;
                for at in 0..128 {
                    obs.sub_executions += 1;
                    between_marks(at, &Val::Bits { hi: *hi, lo: *lo, n: *width })?;
                }
                Ok(())
            }
            Case::RiceAll { exp, from, to } => {
                obs.label("every value for one Rice parameter");
                obs.nontrivial = true;
                for v in *from..=*to {
                    obs.sub_executions += 1;
                    between_marks((v as i32).rem_euclid(127) as u32, &Val::Rice { exp: *exp, v })?;
                    if v == i16::MAX {
                        break;
                    }
                }
                Ok(())
            }
            Case::CappedAll { exp } => {
                obs.label("every value for one capped code");
                obs.nontrivial = true;
                for v in CAPPED_MIN..=CAPPED_MAX {
                    obs.sub_executions += 1;
                    between_marks((v as i32).rem_euclid(127) as u32, &Val::Capped { exp: *exp, v })?;
                }
                Ok(())
            }
        }
    }
}

#[allow(dead_code)]
fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::<C20>(&argv[1.min(argv.len())..]));
}
