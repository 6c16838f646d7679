//! Independent reading and writing of canonical PCM WAV files.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Chunk {
    pub id: [u8; 4],
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WavFile {
    pub format: u16,
    pub channels: u16,
    pub rate: u32,
    pub bits: u16,
    /// extra bytes after the 16 fmt bytes
    pub fmt_extra: Vec<u8>,
    pub before: Vec<Chunk>,
    pub data: Vec<u8>,
    pub after: Vec<Chunk>,
}

impl WavFile {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut body = b"WAVE".to_vec();
        let align = (self.channels as u32 * self.bits as u32 / 8) as u16;
        let mut fmt = Vec::new();
        fmt.extend(self.format.to_le_bytes());
        fmt.extend(self.channels.to_le_bytes());
        fmt.extend(self.rate.to_le_bytes());
        fmt.extend(self.rate.wrapping_mul(align as u32).to_le_bytes());
        fmt.extend(align.to_le_bytes());
        fmt.extend(self.bits.to_le_bytes());
        fmt.extend(&self.fmt_extra);
        put(&mut body, b"fmt ", &fmt);
        for c in &self.before {
            put(&mut body, &c.id, &c.body);
        }
        put(&mut body, b"data", &self.data);
        for c in &self.after {
            put(&mut body, &c.id, &c.body);
        }
        let mut out = b"RIFF".to_vec();
        out.extend((body.len() as u32).to_le_bytes());
        out.extend(body);
        out
    }
}

fn put(out: &mut Vec<u8>, id: &[u8; 4], body: &[u8]) {
    out.extend(id);
    out.extend((body.len() as u32).to_le_bytes());
    out.extend(body);
    if body.len() % 2 == 1 {
        out.push(0);
    }
}

/// Strict parse of a WAV file as the crate writes it: RIFF header, a 16-byte fmt chunk and
/// one data chunk, all sizes consistent. Returns (channels, rate, samples).
pub fn parse_strict(b: &[u8]) -> Result<(u16, u32, Vec<i16>), String> {
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    if b.len() < 44 {
        return Err(format!("only {} bytes", b.len()));
    }
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" || &b[12..16] != b"fmt " || &b[36..40] != b"data" {
        return Err("magic values wrong".into());
    }
    if u32at(4) as usize != b.len() - 8 {
        return Err(format!("RIFF size {} for a file of {} bytes", u32at(4), b.len()));
    }
    if u32at(16) != 16 || u16at(20) != 1 || u16at(34) != 16 {
        return Err("fmt chunk is not 16-bit PCM".into());
    }
    let (ch, rate) = (u16at(22), u32at(24));
    // a rate for which the field is too small can't be told there
    let byte_rate = rate as u64 * ch as u64 * 2;
    if byte_rate <= u32::MAX as u64 && u32at(28) as u64 != byte_rate {
        return Err(format!("byte rate {} for {} Hz, {} channels", u32at(28), rate, ch));
    }
    if u16at(32) as u32 != ch as u32 * 2 {
        return Err(format!("block align {} for {} channels", u16at(32), ch));
    }
    if u32at(40) as usize != b.len() - 44 {
        return Err(format!("data size {} for {} bytes of data", u32at(40), b.len() - 44));
    }
    let data = &b[44..];
    if data.len() % 2 != 0 {
        return Err("odd data size".into());
    }
    Ok((
        ch,
        rate,
        data.chunks(2).map(|p| i16::from_le_bytes([p[0], p[1]])).collect(),
    ))
}
