//! C11: torn files, failing and partial I/O.
use crate::codecs::*;
use crate::p_adhoc::{dir_stream, scale_cases};
use adhoc_audio::{AdhocCodec, WavCodec};
use pbt::engine::{Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{self, BufWriter, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Other,
    BrokenPipe,
    PermissionDenied,
    TimedOut,
    WouldBlock,
    UnexpectedEof,
    InvalidData,
}

impl Kind {
    fn err(self) -> io::Error {
        io::Error::from(match self {
            Kind::Other => ErrorKind::Other,
            Kind::BrokenPipe => ErrorKind::BrokenPipe,
            Kind::PermissionDenied => ErrorKind::PermissionDenied,
            Kind::TimedOut => ErrorKind::TimedOut,
            Kind::WouldBlock => ErrorKind::WouldBlock,
            Kind::UnexpectedEof => ErrorKind::UnexpectedEof,
            Kind::InvalidData => ErrorKind::InvalidData,
        })
    }
}

/// How a transfer is broken up: at most `pattern[i]` bytes per call (cyclic), 0 = interrupted.
type Pattern = Vec<u8>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C11Case {
    s: Stream,
    kind: Kind,
    pattern: Pattern,
    /// extra fault positions in files too long to enumerate
    extra: Vec<u32>,
}

/// A writer that takes what `pattern` says until `fail_at` bytes, then fails.
struct FaultyWriter<'a> {
    got: Vec<u8>,
    pattern: &'a [u8],
    step: usize,
    fail_at: usize,
    /// None: report 0 bytes written instead of an error
    kind: Option<Kind>,
    failed: bool,
    /// after failing once it works again
    once: bool,
    /// flushing fails
    flush: Option<Kind>,
}

impl<'a> FaultyWriter<'a> {
    fn new(pattern: &'a [u8], fail_at: usize, kind: Option<Kind>) -> Self {
        FaultyWriter { got: Vec::new(), pattern, step: 0, fail_at, kind, failed: false, once: false, flush: None }
    }
    fn once(self) -> Self {
        FaultyWriter { once: true, ..self }
    }
}

fn next_len(pattern: &[u8], step: &mut usize) -> Option<usize> {
    if pattern.is_empty() {
        return Some(usize::MAX);
    }
    let n = pattern[*step % pattern.len()];
    *step += 1;
    (n > 0).then_some(n as usize)
}

impl Write for FaultyWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.got.len() >= self.fail_at && !(self.once && self.failed) {
            self.failed = true;
            return match self.kind {
                Some(k) => Err(k.err()),
                None => Ok(0),
            };
        }
        let n = match next_len(self.pattern, &mut self.step) {
            None => return Err(ErrorKind::Interrupted.into()),
            Some(n) if self.failed => n.min(b.len()),
            Some(n) => n.min(b.len()).min(self.fail_at - self.got.len()),
        };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flush.map_or(Ok(()), |k| Err(k.err()))
    }
}

/// A reader that gives what `pattern` says until `fail_at` bytes, then fails.
struct FaultyReader<'a> {
    data: Cursor<&'a [u8]>,
    pattern: &'a [u8],
    step: usize,
    fail_at: usize,
    kind: Kind,
    /// after failing once it works again
    once: bool,
}

impl Read for FaultyReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let pos = self.data.position() as usize;
        if pos >= self.fail_at {
            if self.once {
                self.fail_at = usize::MAX;
            }
            return Err(self.kind.err());
        }
        let n = match next_len(self.pattern, &mut self.step) {
            None => return Err(ErrorKind::Interrupted.into()),
            Some(n) => n.min(b.len()).min(self.fail_at - pos),
        };
        self.data.read(&mut b[..n])
    }
}

impl Seek for FaultyReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.data.seek(p)
    }
}

/// Every position of a short file; the two ends and chosen positions of a long one.
fn positions(len: usize, extra: &[u32]) -> Vec<usize> {
    if len <= 1500 {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..400).chain(len - 300..len).collect();
    v.extend(extra.iter().map(|&e| e as usize % len));
    v
}

fn audio_of(c: &mut WavCodec, max: usize) -> Result<Vec<f32>, String> {
    decode_rest(c, 1024, max)
}

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    type Case = C11Case;
    const LEVEL: &'static str = "fault_enumeration";
    const RULE: &'static str = "a stream saved as .adhoc and as WAV; for every byte position of the file (files over 1500 bytes: both ends and generated positions): the file cut there, a writer failing there (error or 0 bytes taken; for good, or once), a reader failing there (for good, or once); plus writers and readers with a generated pattern of partial and interrupted transfers; non-trivial = at least 4 samples and at least 100 fault points";
    const ASSUMPTIONS: &'static [&'static str] = &["a WAV file cut inside its samples may load as the samples present (no trailing checksum exists in the format)"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 6_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C11Case> {
        (
            (
                rate(),
                prop_oneof![6 => channels(), 1 => 41u32..200],
                level(),
                prop_oneof![10 => signal(Domain::Any, 30), 3 => signal(Domain::Any, 300), 1 => signal(Domain::Any, 2000)],
                cuts(),
            )
                .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts }),
            prop::sample::select(vec![
                Kind::Other, Kind::BrokenPipe, Kind::PermissionDenied, Kind::TimedOut, Kind::WouldBlock,
                Kind::UnexpectedEof, Kind::InvalidData,
            ]),
            prop_oneof![
                1 => Just(vec![1u8]),
                2 => prop::collection::vec(prop_oneof![1 => Just(0u8), 4 => 1u8..=9, 1 => 1u8..=200], 1..6),
            ]
            .prop_map(|mut p: Vec<u8>| {
                if p.iter().all(|&n| n == 0) {
                    p.push(3)
                }
                p
            }),
            prop::collection::vec(any::<u32>(), 100),
        )
            .prop_map(|(mut s, kind, pattern, extra)| {
                limit_calls(&mut s);
                C11Case { s, kind, pattern, extra }
            })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C11Case> {
        let mut v = Vec::new();
        for n in [0u32, 1, 3, 40] {
            for ch in [1u32, 2, 5] {
                v.push(C11Case {
                    s: dir_stream(44_100, ch, n % 7, vec![Seg::Noise { amp: 9000, seed: 3, n }], vec![4]),
                    kind: Kind::Other,
                    pattern: vec![0, 1, 5],
                    extra: vec![],
                });
            }
        }
        v.push(C11Case {
            s: dir_stream(44_100, 2, 0, vec![Seg::Noise { amp: 32_000, seed: 3, n: 20_000 }], vec![1024]),
            kind: Kind::BrokenPipe,
            pattern: vec![200, 0, 1],
            extra: (0..300u32).map(|k| k * 7919).collect(),
        });
        v
    }
    fn check(c: &C11Case, obs: &mut Obs) -> Result<(), String> {
        let s = &c.s;
        let input = s.samples();
        classify(s, obs);
        let codec = s.build(&input);
        let mut wav = WavCodec::new(s.info());
        enc(&mut wav, &input);
        let ab = save_adhoc(&codec)?;
        let wb = save_wav(&wav)?;
        let wav_audio = audio_of(&mut load_wav(&wb)?, input.len())?;
        ensure!(wav_audio.len() == input.len(), "the wav file holds {} samples of {}", wav_audio.len(), input.len());

        let apos = positions(ab.len(), &c.extra);
        let wpos = positions(wb.len(), &c.extra);
        let mut n = 0u64;

        // torn files
        for &k in &apos {
            n += 1;
            ensure!(AdhocCodec::load(&ab[..k]).is_none(), "load accepts an .adhoc file cut at byte {} of {}", k, ab.len());
        }
        for &k in &wpos {
            n += 1;
            if let Ok(mut w) = WavCodec::load(Cursor::new(&wb[..k])) {
                check_info(&w, s.info()).map_err(|e| format!("wav cut at byte {}: {}", k, e))?;
                let got = audio_of(&mut w, input.len()).map_err(|e| format!("wav cut at byte {}: {}", k, e))?;
                let ch = s.ch as usize;
                ensure!(got.len() % ch == 0, "a wav file cut at byte {} of {} ends within a block", k, wb.len());
                if let Some(d) = first_diff(&got, &wav_audio[..got.len()]) {
                    return Err(format!("a wav file cut at byte {} of {} loads other samples: {}", k, wb.len(), d));
                }
            }
        }

        // failing writers
        for (at, kind) in [(&apos, Some(c.kind)), (&apos, None)] {
            for &k in at {
                n += 1;
                let mut w = FaultyWriter::new(&[], k, kind);
                let r = codec.save_to(&mut w);
                ensure!(r.is_none(), "save_to reports success though the writer failed at byte {} of {}", k, ab.len());
                ensure!(w.failed && w.got[..] == ab[..w.got.len()], "save_to wrote other bytes before byte {}", k);
            }
        }
        for (at, kind) in [(&wpos, Some(c.kind)), (&wpos, None)] {
            for &k in at {
                n += 1;
                let mut w = FaultyWriter::new(&[], k, kind);
                let r = wav.save_to(&mut w);
                ensure!(r.is_err(), "wav save_to reports success though the writer failed at byte {} of {}", k, wb.len());
                ensure!(w.failed && w.got[..] == wb[..w.got.len()], "wav save_to wrote other bytes before byte {}", k);
            }
        }

        // a buffered writer, handed over: what fails when the buffer is flushed counts as well
        let capacity = [16usize, 100, 4096, 1 << 20][c.extra.get(3).map_or(0, |e| *e as usize % 4)];
        for (k, &e) in c.extra.iter().take(12).enumerate() {
            n += 2;
            // often in the last bytes, which only the flush writes
            let at = |len: usize| if k % 2 == 0 { len - 1 - e as usize % len.min(20) } else { e as usize % len };
            let kind = (k % 3 > 0).then_some(c.kind);
            let mut w = FaultyWriter::new(&[], at(ab.len()), kind);
            let r = codec.save_to(BufWriter::with_capacity(capacity, &mut w));
            ensure!(r.is_none(), "save_to a buffered writer reports success though writing failed at byte {} of {}", at(ab.len()), ab.len());
            let mut w = FaultyWriter::new(&[], at(wb.len()), kind);
            let r = wav.save_to(BufWriter::with_capacity(capacity, &mut w));
            ensure!(r.is_err(), "wav save_to a buffered writer reports success though writing failed at byte {} of {}", at(wb.len()), wb.len());
        }
        let mut w = FaultyWriter::new(&c.pattern, usize::MAX, None);
        ensure!(codec.save_to(BufWriter::with_capacity(capacity, &mut w)).is_some() && w.got == ab, "save_to a buffered writer writes {} bytes of {}", w.got.len(), ab.len());
        let mut w = FaultyWriter::new(&c.pattern, usize::MAX, None);
        ensure!(wav.save_to(BufWriter::with_capacity(capacity, &mut w)).is_ok() && w.got == wb, "wav save_to a buffered writer writes {} bytes of {}", w.got.len(), wb.len());
        n += 2;

        // partial and interrupted writes
        let mut w = FaultyWriter::new(&c.pattern, usize::MAX, None);
        let r = codec.save_to(&mut w);
        ensure!(r.is_some() && w.got == ab, "save_to through partial writes: {:?}, {} bytes of {}", r.is_some(), w.got.len(), ab.len());
        let mut w = FaultyWriter::new(&c.pattern, usize::MAX, None);
        let r = wav.save_to(&mut w);
        ensure!(r.is_ok() && w.got == wb, "wav save_to through partial writes: {:?}, {} bytes of {}", r, w.got.len(), wb.len());
        n += 2;
        // partial writes, then failure
        for &e in c.extra.iter().take(3) {
            n += 2;
            let mut w = FaultyWriter::new(&c.pattern, e as usize % ab.len(), Some(c.kind));
            ensure!(codec.save_to(&mut w).is_none(), "save_to hides a failure after partial writes at byte {}", e as usize % ab.len());
            let mut w = FaultyWriter::new(&c.pattern, e as usize % wb.len(), Some(c.kind));
            ensure!(wav.save_to(&mut w).is_err(), "wav save_to hides a failure after partial writes at byte {}", e as usize % wb.len());
        }

        // a failure that is over at the next attempt: success means that everything arrived
        for (i, &k) in apos.iter().enumerate() {
            // (each of these moves the whole file)
            if i >= 100 && i + 30 < apos.len() && i % 16 > 0 {
                continue;
            }
            n += 2;
            let mut w = FaultyWriter::new(if i % 8 == 1 { &c.pattern } else { &[] }, k, (i % 3 > 0).then_some(c.kind)).once();
            ensure!(codec.save_to(&mut w).is_none() || w.got == ab, "save_to reports success, but {} bytes of {} arrived: the writer failed once at byte {}", w.got.len(), ab.len(), k);
            let r = FaultyReader { data: Cursor::new(&ab), pattern: if i % 8 == 1 { &c.pattern } else { &[] }, step: 0, fail_at: k, kind: c.kind, once: true };
            if let Some(l) = AdhocCodec::load(r) {
                ensure!(save_adhoc(&l)? == save_adhoc(&load_adhoc(&ab)?)?, "load of a reader that failed once at byte {} of {} yields another stream", k, ab.len());
            }
        }
        for (i, &k) in wpos.iter().enumerate() {
            // (each of these moves the whole file)
            if i >= 100 && i + 30 < wpos.len() && i % 16 > 0 {
                continue;
            }
            n += 2;
            let mut w = FaultyWriter::new(if i % 8 == 1 { &c.pattern } else { &[] }, k, (i % 3 > 0).then_some(c.kind)).once();
            ensure!(wav.save_to(&mut w).is_err() || w.got == wb, "wav save_to reports success, but {} bytes of {} arrived: the writer failed once at byte {}", w.got.len(), wb.len(), k);
            let r = FaultyReader { data: Cursor::new(&wb), pattern: if i % 8 == 1 { &c.pattern } else { &[] }, step: 0, fail_at: k, kind: c.kind, once: true };
            if let Ok(l) = WavCodec::load(r) {
                ensure!(save_wav(&l)? == wb, "wav load of a reader that failed once at byte {} of {} yields another stream", k, wb.len());
            }
        }
        // everything is taken, but can't be flushed
        n += 2;
        let mut w = FaultyWriter { flush: Some(c.kind), ..FaultyWriter::new(&c.pattern, usize::MAX, None) };
        ensure!(codec.save_to(&mut w).is_none(), "save_to reports success though flushing fails");
        let mut w = FaultyWriter { flush: Some(c.kind), ..FaultyWriter::new(&c.pattern, usize::MAX, None) };
        ensure!(wav.save_to(&mut w).is_err(), "wav save_to reports success though flushing fails");

        // failing readers
        for &k in &apos {
            n += 1;
            let r = FaultyReader { data: Cursor::new(&ab), pattern: &[], step: 0, fail_at: k, kind: c.kind, once: false };
            ensure!(AdhocCodec::load(r).is_none(), "load succeeds though the reader failed at byte {} of {}", k, ab.len());
        }
        for &k in &wpos {
            n += 1;
            let r = FaultyReader { data: Cursor::new(&wb), pattern: &[], step: 0, fail_at: k, kind: c.kind, once: false };
            ensure!(WavCodec::load(r).is_err(), "wav load succeeds though the reader failed at byte {} of {}", k, wb.len());
        }
        // short and interrupted reads
        let r = FaultyReader { data: Cursor::new(&ab), pattern: &c.pattern, step: 0, fail_at: usize::MAX, kind: c.kind, once: false };
        let l = AdhocCodec::load(r).ok_or("load fails on short reads")?;
        ensure!(save_adhoc(&l)? == save_adhoc(&load_adhoc(&ab)?)?, "short reads load another .adhoc stream");
        let r = FaultyReader { data: Cursor::new(&wb), pattern: &c.pattern, step: 0, fail_at: usize::MAX, kind: c.kind, once: false };
        let l = WavCodec::load(r).map_err(|e| format!("wav load fails on short reads: {}", e))?;
        ensure!(save_wav(&l)? == wb, "short reads load another wav stream");
        n += 2;

        // the failures left the codecs as they were
        ensure!(save_adhoc(&codec)? == ab && save_wav(&wav)? == wb, "a failed save changed the codec");
        obs.sub_executions = n;
        obs.nontrivial = input.len() >= 4 && n >= 100;
        Ok(())
    }
}
