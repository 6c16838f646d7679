//! C19: the command line tool, run as a process in a scratch directory.
use crate::codecs::*;
use crate::p_adhoc::{dir_stream, scale_cases};
use adhoc_audio::{AdhocCodec, StreamInfo, WavCodec};
use pbt::engine::{Obs, Prop, Tier};
use pbt::ensure;
use pbt::gen::*;
use pbt::refcodec::RefFile;
use pbt::wavref::{parse_strict, Chunk, WavFile};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::io::Cursor;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Content {
    /// 16-bit WAV of this stream (its level is not used)
    Wav16(Stream),
    /// 8-bit WAV: channels, rate, bytes per channel, seed, other chunks around the data
    Wav8(u16, u32, u16, u16, bool),
    Adhoc(Stream),
    /// bytes that are no audio file, under this extension
    Garbage(bool, Vec<u8>),
    /// a valid file of the extension, cut at this permille
    Torn(bool, Stream, u16),
    /// a WAV file of an unsupported sample size
    Wav24(u16),
    /// named on the command line but absent
    Missing(bool),
    /// another kind of file
    Other(Vec<u8>),
    /// a directory of that name
    Directory(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    stem: String,
    content: Content,
    /// something already there under the output name: 1 = a longer file, 2 = a directory
    before: u8,
    /// input lives in a second directory
    elsewhere: bool,
}

#[derive(Copy, Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OutDir {
    /// a directory of its own, given relative or absolute
    Own(bool),
    /// where the inputs are
    Same,
    /// not given: the working directory
    Default,
    /// does not exist
    Absent,
    /// a directory of its own whose name is not valid UTF-8
    Raw(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19Case {
    files: Vec<Input>,
    out: OutDir,
    level: Option<u32>,
    long_flags: bool,
    flags_first: bool,
    absolute: bool,
    threads: u8,
}

pub struct C19;

/// The file name a text stands for: U+E080 to U+E0FF (private use) are single bytes, which makes
/// names that are not valid UTF-8.
fn os(name: &str) -> OsString {
    let mut bytes = Vec::new();
    for c in name.chars() {
        match c as u32 {
            u @ 0xE080..=0xE0FF => bytes.push(u as u8),
            _ => bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    OsString::from_vec(bytes)
}

static NEXT: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("cli.{}.{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn cli_binary() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_CLI").expect("VERIF_CLI names the command line tool"))
}

impl Input {
    fn is_wav(&self) -> bool {
        match &self.content {
            Content::Wav16(_) | Content::Wav8(..) | Content::Wav24(_) => true,
            Content::Adhoc(_) => false,
            Content::Garbage(w, _) | Content::Torn(w, ..) | Content::Missing(w) | Content::Directory(w) => *w,
            Content::Other(_) => false,
        }
    }
    fn ext(&self) -> &'static str {
        match self.content {
            Content::Other(_) => "txt",
            _ if self.is_wav() => "wav",
            _ => "adhoc",
        }
    }
    fn out_name(&self) -> String {
        format!("{}.{}", self.stem, if self.is_wav() { "adhoc" } else { "wav" })
    }
    fn bytes(&self) -> Result<Option<Vec<u8>>, String> {
        Ok(Some(match &self.content {
            Content::Wav16(s) => wav16(s)?,
            Content::Wav8(ch, rate, n, seed, chunks) => {
                let extra = |id: &[u8; 4]| Chunk { id: *id, body: vec![7; 9] };
                WavFile {
                    format: 1,
                    channels: *ch,
                    rate: *rate,
                    bits: 8,
                    fmt_extra: if *chunks { vec![0, 0] } else { vec![] },
                    before: if *chunks { vec![extra(b"LIST")] } else { vec![] },
                    data: (0..*n as usize * *ch as usize).map(|i| mix(*seed as u64, i as u64, 4) as u8).collect(),
                    after: if *chunks { vec![extra(b"id3 ")] } else { vec![] },
                }
                .to_bytes()
            }
            Content::Adhoc(s) => save_adhoc(&s.build(&s.samples()))?,
            Content::Garbage(_, b) => b.clone(),
            Content::Torn(wav, s, at) => {
                let b = if *wav { wav16(s)? } else { save_adhoc(&s.build(&s.samples()))? };
                b[..b.len() * (*at as usize % 1000) / 1000].to_vec()
            }
            Content::Wav24(n) => WavFile {
                format: 1, channels: 1, rate: 8000, bits: 24, fmt_extra: vec![], before: vec![],
                data: vec![3; *n as usize * 3], after: vec![],
            }
            .to_bytes(),
            Content::Missing(_) | Content::Directory(_) => return Ok(None),
            Content::Other(b) => b.clone(),
        }))
    }
}

fn wav16(s: &Stream) -> Result<Vec<u8>, String> {
    let mut w = WavCodec::new(s.info());
    enc(&mut w, &s.samples());
    save_wav(&w)
}

/// What the library makes of an input.
enum Expect {
    /// audio for an .adhoc file: info and samples of the WAV
    Adhoc(StreamInfo, Vec<f32>),
    /// audio for a .wav file: info and decoded samples
    Wav(StreamInfo, Vec<f32>),
    Nothing,
}

fn expectation(i: &Input, bytes: &Option<Vec<u8>>) -> Result<Expect, String> {
    use adhoc_audio::Streamable;
    let Some(b) = bytes else { return Ok(Expect::Nothing) };
    if let Content::Other(_) = i.content {
        return Ok(Expect::Nothing);
    }
    if i.is_wav() {
        let Ok(mut w) = WavCodec::load(Cursor::new(&b[..])) else { return Ok(Expect::Nothing) };
        let info = Streamable::info(&w);
        let ch = info.channels();
        let mut audio = decode_rest(&mut w, 4096, b.len())?;
        audio.truncate(audio.len() / ch * ch); // a torn last block is not a block
        Ok(Expect::Adhoc(info, audio))
    } else {
        let Some(mut c) = AdhocCodec::load(&b[..]) else { return Ok(Expect::Nothing) };
        let info = c.info();
        let audio = decode_rest(&mut c, 4096, 10_000_000)?;
        Ok(Expect::Wav(info, audio))
    }
}

/// all files below `dir`, with their contents
fn listing(dir: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(dir).expect("readable").flatten() {
        let p = e.path();
        if p.is_dir() {
            listing(&p, out);
        } else {
            out.insert(p.clone(), std::fs::read(&p).expect("readable"));
        }
    }
}

fn run_tool(cwd: &Path, args: &[OsString], threads: u8) -> Result<(), String> {
    let out = Command::new(cli_binary())
        .args(args)
        .current_dir(cwd)
        .env("RAYON_NUM_THREADS", threads.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output()
        .expect("the tool starts");
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    ensure!(out.status.signal().is_none(), "the tool died from signal {:?}: {}", out.status.signal(), err);
    ensure!(out.status.code() != Some(101) && !err.contains("panicked"), "the tool panicked: {}", err);
    Ok(())
}

fn check_adhoc(bytes: &[u8], info: StreamInfo, audio: &[f32], level: u32) -> Result<(), String> {
    let f = RefFile::parse(bytes).map_err(|e| format!("is not an .adhoc file: {}", e))?;
    ensure!(f.level == level.min(10), "is compressed at level {} instead of {}", f.level, level.min(10));
    let mut c = load_adhoc(bytes)?;
    check_info(&c, info)?;
    let out = decode_rest(&mut c, 2000.max(info.channels()), audio.len() * 2 + 100_000)?;
    check_distortion(audio, &out, level)?;
    if level == 0 {
        let mut lib = AdhocCodec::new().with_compression_level(0).with_info(info);
        enc(&mut lib, audio);
        lib.init();
        let want = decode_rest(&mut lib, 2000, audio.len())?;
        if let Some(d) = first_diff(&out, &want) {
            return Err(format!("does not hold what the library makes of the input: {}", d));
        }
    }
    Ok(())
}

fn check_wav(bytes: &[u8], info: StreamInfo, audio: &[f32]) -> Result<(), String> {
    let (ch, rate, units) = parse_strict(bytes).map_err(|e| format!("is not a WAV file: {}", e))?;
    ensure!(ch as usize == info.channels() && rate as usize == info.frequency(),
        "has {} channels at {} Hz instead of {} at {}", ch, rate, info.channels(), info.frequency());
    let want = through_wav(audio, info)?;
    ensure!(units.len() == want.len(), "holds {} samples instead of {}", units.len(), want.len());
    for (i, (&u, &x)) in units.iter().zip(&want).enumerate() {
        ensure!((x as f64 * 32767.0 - u as f64).abs() < 0.01, "sample {} is {} instead of {}", i, u, x * 32767.0);
    }
    Ok(())
}

fn stem() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,8}",
        3 => "[a-z]{1,4}(\\.[a-z0-9]{1,4}){1,3}",
        1 => "[a-z]{1,3} [a-zA-Z ]{0,4}[a-z]",
        1 => "[a-z]{1,3}[éüñ漢字]{1,3}[a-z._-]{0,3}",
        1 => "[a-zé.]{0,3}[\u{E080}\u{E0C3}\u{E0E9}\u{E0FE}\u{E0FF}]{1,3}[a-z._-]{0,3}[a-z]",
        1 => "[a-zA-Z0-9_.,()'&$~ -]{0,8}[a-z]",
        1 => prop::sample::select(vec![
            "song.wav", "song.adhoc", "a.wav.wav", ".hidden", "..x", "x.", "v1.2.3", "wav", "adhoc", "take 1.final",
        ]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn small_stream(level: BoxedStrategy<u32>) -> BoxedStrategy<Stream> {
    prop_oneof![
        14 => (rate(), channels(), level.clone(), prop_oneof![3 => signal(Domain::Unit, 60), 3 => signal(Domain::Unit, 1500), 1 => signal(Domain::Unit, 6000)], cuts())
            .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts }),
        1 => (rate(), prop_oneof![41u32..=1023, 1023u32..=1026, 1026u32..=1600], level, signal(Domain::Unit, 8), cuts())
            .prop_map(|(rate, ch, level, sig, cuts)| Stream { rate, ch, level, sig, cuts }),
    ]
    .prop_map(|mut s| {
        limit_calls(&mut s);
        s
    })
    .boxed()
}

fn input() -> BoxedStrategy<Input> {
    let content = prop_oneof![
        8 => small_stream(Just(0).boxed()).prop_map(Content::Wav16),
        4 => (1u16..=6, rate(), 0u16..=3000, any::<u16>(), any::<bool>()).prop_map(|(c, r, n, s, k)| Content::Wav8(c, r, n, s, k)),
        8 => small_stream(level()).prop_map(Content::Adhoc),
        1 => (any::<bool>(), prop::collection::vec(any::<u8>(), 0..300)).prop_map(|(w, b)| Content::Garbage(w, b)),
        1 => (any::<bool>(), small_stream(level()), 0u16..1000).prop_map(|(w, s, k)| Content::Torn(w, s, k)),
        1 => (0u16..50).prop_map(Content::Wav24),
        1 => any::<bool>().prop_map(Content::Missing),
        1 => any::<bool>().prop_map(Content::Directory),
        1 => prop::collection::vec(any::<u8>(), 0..50).prop_map(Content::Other),
    ];
    (stem(), content, prop_oneof![8 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], prop::bool::weighted(0.3))
        .prop_map(|(stem, content, before, elsewhere)| Input { stem, content, before, elsewhere })
        .boxed()
}

impl Prop for C19 {
    const ID: &'static str = "C19";
    type Case = C19Case;
    const RULE: &'static str = "1-7 (directed: 300) files (16/8-bit WAV, .adhoc of any level, garbage, torn, unsupported, missing, other) with generated names (dots, spaces, Unicode, bytes that are not UTF-8), in one or two directories, an output directory (own, same, default, absent) with stale files or directories under the output names, a level (absent, 0-10, larger) and flag style; the real binary runs in a scratch directory, every file there is compared with what the library gives, and the results are converted back; non-trivial = at least two convertible files";
    const ASSUMPTIONS: &'static [&'static str] = &["base names of the inputs of one run are distinct", "lossy output is compared by level field, length and distortion bound, as dither depends on how the tool cuts its calls"];
    fn cases(t: Tier) -> u32 {
        scale_cases(t, 16_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<C19Case> {
        (
            prop::collection::vec(input(), 1..=7),
            prop_oneof![
                8 => any::<bool>().prop_map(OutDir::Own),
                1 => any::<bool>().prop_map(OutDir::Raw),
                6 => Just(OutDir::Same),
                2 => Just(OutDir::Default),
                2 => Just(OutDir::Absent),
            ],
            prop_oneof![1 => Just(None), 3 => Just(Some(0u32)), 6 => (1u32..=10).prop_map(Some), 1 => prop_oneof![11u32..1000, Just(u32::MAX)].prop_map(Some)],
            any::<bool>(),
            any::<bool>(),
            any::<bool>(),
            prop::sample::select(vec![1u8, 2, 4]),
        )
            .prop_map(|(mut files, out, level, long_flags, flags_first, absolute, threads)| {
                let mut seen = BTreeSet::new();
                files.retain(|f| seen.insert(f.stem.clone()));
                C19Case { files, out, level, long_flags, flags_first, absolute, threads }
            })
            .boxed()
    }
    fn directed(_: Tier) -> Vec<C19Case> {
        let mut v = Vec::new();
        let wav = |ch, n| Content::Wav16(dir_stream(44_100, ch, 0, vec![Seg::Noise { amp: 30_000, seed: 3, n }], vec![100]));
        let adhoc = |ch, n, l| Content::Adhoc(dir_stream(22_050, ch, l, vec![Seg::Tone { amp: 30_000, period: 70, n }], vec![77]));
        for (i, ch) in [1u32, 2, 3, 5, 7, 1023, 1024, 1025, 1500].into_iter().enumerate() {
            for n in [0u32, 1, 2, 3, 700] {
                if ch > 100 && n > 3 {
                    continue;
                }
                v.push(C19Case {
                    files: vec![
                        Input { stem: "a.b.c".into(), content: wav(ch, n), before: 1, elsewhere: false },
                        Input { stem: "a".into(), content: adhoc(ch, n, i as u32), before: 1, elsewhere: true },
                        Input { stem: "bad".into(), content: Content::Garbage(true, b"RIFF".to_vec()), before: 0, elsewhere: false },
                        Input { stem: "a.b".into(), content: wav(2, 2000), before: 0, elsewhere: false },
                        Input { stem: "gone".into(), content: Content::Missing(n % 2 == 0), before: 0, elsewhere: false },
                    ],
                    out: if n % 2 == 0 { OutDir::Own(true) } else { OutDir::Same },
                    level: Some(i as u32 % 4),
                    long_flags: n % 2 == 0,
                    flags_first: ch % 2 == 0,
                    absolute: true,
                    threads: 4,
                });
            }
        }
        // more files than there are workers, and than 8 bits count
        for (threads, level) in [(4u8, 0u32), (1, 6)] {
            v.push(C19Case {
                files: (0..300u32)
                    .map(|k| Input {
                        stem: if k % 50 == 7 { format!("{}{}", "long name ".repeat(23), k) } else { format!("take.{}", k) },
                        content: match k % 7 {
                            0 => Content::Garbage(k % 2 == 0, vec![k as u8; k as usize]),
                            1 | 2 => adhoc(1 + k % 3, k * 5, level),
                            3 => Content::Missing(k % 2 == 0),
                            _ => wav(1 + k % 4, k * 4),
                        },
                        before: (k % 5 == 4) as u8,
                        elsewhere: k % 3 == 0,
                    })
                    .collect(),
                out: OutDir::Own(true),
                level: Some(level),
                long_flags: true,
                flags_first: false,
                absolute: true,
                threads,
            });
        }
        // a minute of audio each way
        v.push(C19Case {
            files: vec![
                Input { stem: "long".into(), content: wav(2, 2_000_000), before: 0, elsewhere: false },
                Input { stem: "longer".into(), content: adhoc(1, 3_000_000, 3), before: 0, elsewhere: false },
                Input { stem: "a".into(), content: wav(1, 1_048_576), before: 0, elsewhere: true },
            ],
            out: OutDir::Own(true),
            level: Some(2),
            long_flags: false,
            flags_first: false,
            absolute: true,
            threads: 2,
        });
        v
    }
    fn check(c: &C19Case, obs: &mut Obs) -> Result<(), String> {
        let scratch = Scratch::new();
        let root = scratch.0.clone();
        let dirs = [root.join("in"), root.join("more in")];
        let cwd = root.join("cwd");
        for d in dirs.iter().chain([&cwd]) {
            std::fs::create_dir_all(d).expect("scratch");
        }
        let out_dir = match c.out {
            OutDir::Own(_) => root.join("the out.dir"),
            OutDir::Raw(_) => root.join(os("out\u{E0FF}\u{E080}")),
            OutDir::Same => dirs[0].clone(),
            OutDir::Default => cwd.clone(),
            OutDir::Absent => root.join("nowhere"),
        };
        if let OutDir::Own(_) | OutDir::Raw(_) = c.out {
            std::fs::create_dir_all(&out_dir).expect("scratch");
        }
        let level = c.level.unwrap_or(5);
        let mut args: Vec<OsString> = Vec::new();
        let mut flags: Vec<OsString> = Vec::new();
        let text = |p: &Path, absolute: bool| -> OsString {
            if absolute {
                p.into()
            } else {
                Path::new("..").join(p.strip_prefix(&root).unwrap()).into()
            }
        };
        match c.out {
            OutDir::Default => {}
            OutDir::Own(abs) | OutDir::Raw(abs) => flags.extend([if c.long_flags { "--outdir" } else { "-o" }.into(), text(&out_dir, abs)]),
            _ => flags.extend([if c.long_flags { "--outdir" } else { "-o" }.into(), text(&out_dir, c.absolute)]),
        }
        if let Some(l) = c.level {
            flags.extend([if c.long_flags { "--comp-level" } else { "-c" }.into(), l.to_string().into()]);
        }
        let mut expects: Vec<(&Input, Expect, bool)> = Vec::new();
        for f in &c.files {
            let path = dirs[f.elsewhere as usize].join(os(&format!("{}.{}", f.stem, f.ext())));
            obs.label_if(path.to_str().is_none(), "name that is not UTF-8");
            let bytes = f.bytes()?;
            if let Some(b) = &bytes {
                std::fs::write(&path, b).expect("scratch");
            }
            if let Content::Directory(_) = f.content {
                std::fs::create_dir_all(&path).expect("scratch");
            }
            args.push(text(&path, c.absolute));
            let e = expectation(f, &bytes)?;
            // what lies under the output name already
            let target = out_dir.join(os(&f.out_name()));
            let blocked = c.out != OutDir::Absent && f.before == 2;
            if c.out != OutDir::Absent && !matches!(e, Expect::Nothing) {
                match f.before {
                    1 => std::fs::write(&target, vec![0xAB; 100_000]).expect("scratch"),
                    2 => std::fs::create_dir_all(&target).expect("scratch"),
                    _ => {}
                }
            }
            expects.push((f, e, blocked));
        }
        if c.flags_first {
            flags.extend(args);
            args = flags;
        } else {
            args.extend(flags);
        }
        let mut before = BTreeMap::new();
        listing(&root, &mut before);
        run_tool(&cwd, &args, c.threads)?;
        let mut after = BTreeMap::new();
        listing(&root, &mut after);

        let mut allowed: BTreeSet<PathBuf> = BTreeSet::new();
        let mut converted = 0;
        let mut back_args = Vec::new();
        if c.out == OutDir::Absent {
            obs.label("output directory absent");
            ensure!(!out_dir.exists(), "the absent output directory was created");
        } else {
            for (f, e, blocked) in &expects {
                let name = f.out_name();
                let target = out_dir.join(os(&name));
                obs.label(match (e, f.is_wav()) {
                    (Expect::Adhoc(..), _) => "wav to adhoc",
                    (Expect::Wav(..), _) => "adhoc to wav",
                    (Expect::Nothing, true) => "unusable wav",
                    (Expect::Nothing, false) => "unusable adhoc or other",
                });
                if *blocked && !matches!(e, Expect::Nothing) {
                    obs.label("output name taken by a directory");
                    continue;
                }
                let got = after.get(&target);
                match e {
                    Expect::Nothing => ensure!(got == before.get(&target), "{:?} is no audio, yet {:?} was written", f.stem, name),
                    Expect::Adhoc(info, audio) => {
                        let got = got.ok_or_else(|| format!("no {:?} was written for input {}.wav", name, f.stem))?;
                        check_adhoc(got, *info, audio, level).map_err(|m| format!("{:?} {}", name, m))?;
                        allowed.insert(target.clone());
                        back_args.push(text(&target, c.absolute));
                        converted += 1;
                    }
                    Expect::Wav(info, audio) => {
                        let got = got.ok_or_else(|| format!("no {:?} was written for input {}.adhoc", name, f.stem))?;
                        check_wav(got, *info, audio).map_err(|m| format!("{:?} {}", name, m))?;
                        allowed.insert(target);
                        converted += 1;
                    }
                }
            }
        }
        for (p, b) in &after {
            if !allowed.contains(p) {
                ensure!(before.get(p) == Some(b), "the tool wrote or changed {:?}", p.strip_prefix(&root).unwrap());
            }
        }
        for p in before.keys() {
            ensure!(after.contains_key(p), "the tool removed {:?}", p.strip_prefix(&root).unwrap());
        }
        obs.nontrivial = converted >= 2;

        // and back
        if !back_args.is_empty() {
            let back = root.join("back");
            std::fs::create_dir_all(&back).expect("scratch");
            back_args.extend(["-o".into(), text(&back, c.absolute)]);
            run_tool(&cwd, &back_args, c.threads)?;
            for (f, e, blocked) in &expects {
                let Expect::Adhoc(info, audio) = e else { continue };
                if *blocked {
                    continue;
                }
                let name = format!("{}.wav", f.stem);
                let b = std::fs::read(back.join(os(&name))).map_err(|_| format!("no {:?} was written on the way back", name))?;
                let (ch, rate, units) = parse_strict(&b).map_err(|m| format!("{:?} on the way back: {}", name, m))?;
                ensure!(
                    ch as usize == info.channels() && rate as usize == info.frequency() && units.len() == audio.len(),
                    "{:?} came back with {} channels, {} Hz, {} samples instead of {}, {}, {}",
                    name, ch, rate, units.len(), info.channels(), info.frequency(), audio.len()
                );
                let bound = distortion_bound(level) + STEP * 1.01;
                for (i, (&u, &x)) in units.iter().zip(audio).enumerate() {
                    let d = (u as f32 * STEP - x).abs();
                    ensure!(d <= bound, "{:?}: sample {} came back as {} instead of {} (allowed {})", name, i, u as f32 * STEP, x, bound);
                }
                if level == 0 {
                    let back: Vec<f32> = units.iter().map(|&u| u as f32 * STEP).collect();
                    check_exact(audio, &back).map_err(|m| format!("{:?} at level 0: {}", name, m))?;
                    obs.label("there and back without loss");
                }
                obs.label("there and back");
            }
            obs.sub_executions += 1;
        }
        Ok(())
    }
}
