//! Independent reading and writing of the .adhoc layout (no serde, no crate code).

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RefFile {
    pub level: u32,
    pub nibbles: Vec<u8>,
    pub nibble_count: u32,
    pub init_words: Vec<u64>,
    pub init_len: u128,
    pub sizes: Vec<u16>,
    pub cursors: Vec<u64>,
    pub history: Vec<[i16; 3]>,
    pub header_cursor: u32,
    pub info: Option<(u32, u32)>,
    pub bits: Vec<u128>,
    pub bit_cursor: u128,
    pub capacity: u128,
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("file ends early".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn u128(&mut self) -> Result<u128, String> {
        Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    fn seq<T>(&mut self, f: impl Fn(&mut Self) -> Result<T, String>) -> Result<Vec<T>, String> {
        let n = self.u64()?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(f(self)?);
        }
        Ok(v)
    }
}

impl RefFile {
    pub fn parse(bytes: &[u8]) -> Result<RefFile, String> {
        let (f, left) = Self::parse_prefix(bytes)?;
        if left > 0 {
            return Err(format!("{} bytes left over", left));
        }
        Ok(f)
    }

    /// Parses a file at the start of `bytes`; also returns how many bytes follow it.
    pub fn parse_prefix(bytes: &[u8]) -> Result<(RefFile, usize), String> {
        let mut r = Rd(bytes);
        let f = RefFile {
            level: r.u32()?,
            nibbles: r.seq(Rd::u8)?,
            nibble_count: r.u32()?,
            init_words: r.seq(Rd::u64)?,
            init_len: r.u128()?,
            sizes: r.seq(Rd::u16)?,
            cursors: r.seq(Rd::u64)?,
            history: r.seq(|r| Ok([r.u16()? as i16, r.u16()? as i16, r.u16()? as i16]))?,
            header_cursor: r.u32()?,
            info: match r.u8()? {
                0 => None,
                1 => Some((r.u32()?, r.u32()?)),
                t => return Err(format!("bad option tag {}", t)),
            },
            bits: r.seq(Rd::u128)?,
            bit_cursor: r.u128()?,
            capacity: r.u128()?,
        };
        Ok((f, r.0.len()))
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let len = |o: &mut Vec<u8>, n: usize| o.extend((n as u64).to_le_bytes());
        o.extend(self.level.to_le_bytes());
        len(&mut o, self.nibbles.len());
        o.extend(&self.nibbles);
        o.extend(self.nibble_count.to_le_bytes());
        len(&mut o, self.init_words.len());
        self.init_words.iter().for_each(|w| o.extend(w.to_le_bytes()));
        o.extend(self.init_len.to_le_bytes());
        len(&mut o, self.sizes.len());
        self.sizes.iter().for_each(|w| o.extend(w.to_le_bytes()));
        len(&mut o, self.cursors.len());
        self.cursors.iter().for_each(|w| o.extend(w.to_le_bytes()));
        len(&mut o, self.history.len());
        self.history
            .iter()
            .for_each(|h| h.iter().for_each(|w| o.extend(w.to_le_bytes())));
        o.extend(self.header_cursor.to_le_bytes());
        match self.info {
            None => o.push(0),
            Some((a, b)) => {
                o.push(1);
                o.extend(a.to_le_bytes());
                o.extend(b.to_le_bytes());
            }
        }
        len(&mut o, self.bits.len());
        self.bits.iter().for_each(|w| o.extend(w.to_le_bytes()));
        o.extend(self.bit_cursor.to_le_bytes());
        o.extend(self.capacity.to_le_bytes());
        o
    }

    pub fn frames(&self) -> usize {
        self.nibble_count as usize
    }

    pub fn exponent(&self, i: usize) -> u32 {
        ((self.nibbles[i / 2] >> (4 * (i % 2))) & 15) as u32
    }

    pub fn is_init(&self, i: usize) -> bool {
        (self.init_words[i / 64] >> (i % 64)) & 1 == 1
    }

    pub fn push_frame(&mut self, exponent: u8, init: bool, size: u16, cursor: u64, hist: [i16; 3]) {
        let i = self.nibble_count as usize;
        if i % 2 == 0 {
            self.nibbles.push(exponent & 15);
        } else {
            *self.nibbles.last_mut().unwrap() |= (exponent & 15) << 4;
        }
        self.nibble_count += 1;
        if i % 64 == 0 {
            self.init_words.push(0);
        }
        *self.init_words.last_mut().unwrap() |= (init as u64) << (i % 64);
        self.init_len += 1;
        self.sizes.push(size);
        self.cursors.push(cursor);
        self.history.push(hist);
        self.header_cursor += 1;
    }

    /// Structural soundness of a file the crate wrote.
    pub fn sound(&self) -> Result<(), String> {
        let n = self.frames();
        if self.nibbles.len() != (n + 1) / 2 {
            return Err(format!("{} nibble bytes for {} frames", self.nibbles.len(), n));
        }
        if self.init_len != n as u128 || self.sizes.len() != n || self.cursors.len() != n || self.history.len() != n {
            return Err("frame lists differ in length".into());
        }
        if self.init_words.len() < (n + 63) / 64 {
            return Err("too few flag words".into());
        }
        let (_, ch) = self.info.ok_or("no stream info")?;
        if ch == 0 || n % ch as usize != 0 {
            return Err("frames are not a multiple of the channels".into());
        }
        Ok(())
    }

    /// Decodes the whole stream: interleaved samples, and per frame the bit position at which
    /// it really starts and the three samples of its channel before it.
    pub fn decode(&self) -> Result<(Vec<f32>, Vec<(u64, [i16; 3])>), String> {
        self.sound()?;
        let ch = self.info.unwrap().1 as usize;
        let scale = (1u32 << self.level) as f32;
        let mut hist = vec![[0i16; 3]; ch];
        let mut out = Vec::new();
        let mut starts = Vec::new();
        let mut pos: usize = 0;
        let total_bits = self.bits.len() * 128;
        let bit = |p: usize| -> Result<u32, String> {
            if p >= total_bits {
                return Err("frame runs past the end of the bit stream".into());
            }
            Ok(((self.bits[p / 128] >> (p % 128)) & 1) as u32)
        };
        for group in 0..self.frames() / ch {
            let mut chans: Vec<Vec<f32>> = Vec::new();
            for c in 0..ch {
                let i = group * ch + c;
                let size = self.sizes[i] as usize;
                let k = self.exponent(i);
                starts.push((pos as u64, hist[c]));
                let mut samples = Vec::with_capacity(size);
                let h = &mut hist[c];
                if self.is_init(i) {
                    for _ in 0..size.min(3) {
                        let mut v = 0u32;
                        for b in 0..16 {
                            v |= bit(pos + b)? << b;
                        }
                        pos += 16;
                        let v = v as u16 as i16;
                        // until there are three samples the first one stands in for the others
                        *h = if samples.is_empty() { [v; 3] } else { [h[1], h[2], v] };
                        samples.push(norm(v) * scale);
                    }
                }
                while samples.len() < size {
                    let neg = bit(pos)?;
                    pos += 1;
                    let mut q = 0u32;
                    while bit(pos)? == 1 {
                        q += 1;
                        pos += 1;
                    }
                    pos += 1;
                    let mut r = 0u32;
                    for b in 0..k as usize {
                        r |= bit(pos + b)? << b;
                    }
                    pos += k as usize;
                    let mag = ((q << k) + r) as i32;
                    let e = if neg == 1 { -mag } else { mag };
                    let cur = (predict(*h) as i32 + e) as i16; // modulo 2^16
                    *h = [h[1], h[2], cur];
                    samples.push(norm(cur).clamp(-1.0, 1.0) * scale);
                }
                chans.push(samples);
            }
            let n = chans.iter().map(Vec::len).max().unwrap_or(0);
            for t in 0..n {
                for s in &chans {
                    out.push(*s.get(t).ok_or("channels of a block differ in length")?);
                }
            }
        }
        if pos as u128 > self.capacity {
            return Err("frames run past the written part of the bit stream".into());
        }
        Ok((out, starts))
    }

    /// Writes a stream in the layout. `blocks[g][c]` are the 16-bit samples of frame group g,
    /// channel c; `exps` is cycled over the frames. The first group must not be empty.
    pub fn encode(level: u32, info: (u32, u32), blocks: &[Vec<Vec<i16>>], exps: &[u8]) -> RefFile {
        let mut f = RefFile {
            level,
            info: Some(info),
            ..Default::default()
        };
        let ch = info.1 as usize;
        let mut hist = vec![[0i16; 3]; ch];
        let mut w = BitW::default();
        let mut idx = 0;
        for (g, group) in blocks.iter().enumerate() {
            for c in 0..ch {
                let k = exps[idx % exps.len()] as u32;
                idx += 1;
                let start = w.len as u64;
                let samples = &group[c];
                let mut rest = &samples[..];
                let before = hist[c];
                let h = &mut hist[c];
                if g == 0 {
                    let raw = samples.len().min(3);
                    for (i, &s) in samples[..raw].iter().enumerate() {
                        w.put(s as u16 as u32, 16);
                        *h = if i == 0 { [s; 3] } else { [h[1], h[2], s] };
                    }
                    rest = &samples[raw..];
                }
                let stored = if g == 0 { *h } else { before };
                for &s in rest {
                    let e = s.wrapping_sub(predict(*h)); // modulo 2^16
                    let mag = e.unsigned_abs() as u32;
                    w.put((e < 0) as u32, 1);
                    for _ in 0..(mag >> k) {
                        w.put(1, 1);
                    }
                    w.put(0, 1);
                    w.put(mag & ((1 << k) - 1), k as usize);
                    *h = [h[1], h[2], s];
                }
                f.push_frame(k as u8, g == 0, samples.len() as u16, start, stored);
            }
        }
        f.bit_cursor = w.len as u128;
        f.capacity = w.len as u128;
        f.bits = w.words;
        f
    }
}

#[derive(Default)]
struct BitW {
    words: Vec<u128>,
    len: usize,
}
impl BitW {
    fn put(&mut self, v: u32, n: usize) {
        for b in 0..n {
            if self.len % 128 == 0 {
                self.words.push(0);
            }
            let w = self.words.last_mut().unwrap();
            *w |= (((v >> b) & 1) as u128) << (self.len % 128);
            self.len += 1;
        }
    }
}

pub fn norm(v: i16) -> f32 {
    v as i32 as f32 * (1.0 / 32767i16 as f32)
}

pub fn trunc(x: f32) -> i16 {
    (x.clamp(-1.0, 1.0) * 32767.0) as i16
}

/// Quadratic through (0,h0) (1,h1) (2,h2), evaluated at 3, in the layout's f32 arithmetic.
pub fn predict(h: [i16; 3]) -> i16 {
    let f = [norm(h[0]), norm(h[1]), norm(h[2])];
    let d = f[1] - f[0];
    let e = f[2] - f[0];
    let c1 = (4.0 * d - e) * 0.5;
    let c2 = (e - 2.0 * d) * 0.5;
    trunc(f[0] + (c1 + c2 * 3.0) * 3.0)
}
