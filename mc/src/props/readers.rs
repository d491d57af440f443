//! C44: the reading and writing helpers of the library, under every script of reader answers.
use super::*;
use crate::ensure;
use crate::util::show;
use std::io::{ErrorKind, Read, Write};
use std::os::unix::fs::OpenOptionsExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use stringology::{core, io};

pub const PROPS: &[Prop] = &[Prop {
    id: "C44",
    explore,
    judge,
    progs: &[],
    what: "scripts of reader answers, files and prefixes",
    bounds: "read_char, next_char and number_of_runs under every sequence of up to 11 (13) answers of the reader out of {a, b, interruption}, 8 (10) out of {a, interruption, would-block, other error} and 7 (8) out of {a, b, zero byte, interruption, broken pipe}, followed by the end of the input, with readers that fill as much of the buffer as possible and readers that hand out one byte at a time; up to 100000 interruptions in a row before, between and behind the letters; all words of two bytes; families with an interruption or an error at every tenth place. Whole-file and stream functions over files with all words over {0,a,newline,255} up to length 4 (5) and families at thresholds up to 65538 (131074) with every prefix length up to n+2 (around 0, n/2, n, 2^32 and 2^64 for the long ones), several write granularities over a longer and a shorter old file, every sequence of up to 3 (4) reads out of nine kinds (sizes 0, 1, 2, 3, 8191..8193, into two buffers, exact) followed by the rest, on 14 files, every sequence of up to 4 (5) writes out of nine kinds (sizes 0, 1, 3, 8191..8193, from two buffers, formatted, flush), symbolic links, named pipes, missing files, directories",
    oracle: "the sequence of letters of the script; one byte is taken from the reader per letter; std::fs for files",
    fault: true,
}];

const KINDS: [(u8, ErrorKind); 3] = [(b'w', ErrorKind::WouldBlock), (b'x', ErrorKind::Other), (b'p', ErrorKind::BrokenPipe)];

/// 'a', 'b', '0': a letter (0 for the zero byte); 'i': interruption; others: errors; the end after the last one
struct Script<'a> {
    s: &'a [u8],
    pos: usize,
    chunk: bool,
}
fn letter(c: u8) -> Option<u8> {
    match c {
        b'0' => Some(0),
        b'i' | b'w' | b'x' | b'p' => None,
        c => Some(c),
    }
}
fn kind(c: u8) -> Option<ErrorKind> {
    KINDS.iter().find(|k| k.0 == c).map(|k| k.1)
}
impl Read for Script<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.pos == self.s.len() {
            return Ok(0);
        }
        let c = self.s[self.pos];
        if let Some(k) = kind(c) {
            self.pos += 1;
            return Err(std::io::Error::new(k, "scripted"));
        }
        if c == b'i' {
            self.pos += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = 0;
        while n < b.len() && self.pos < self.s.len() {
            match letter(self.s[self.pos]) {
                Some(l) => b[n] = l,
                None => break,
            }
            n += 1;
            self.pos += 1;
            if !self.chunk {
                break;
            }
        }
        Ok(n)
    }
}

fn explore(c: &mut Ctx) {
    c.space("scripts of reader answers");
    spaces::words(b"abi", 0, c.b(11, 13), &mut |w| c.case("script", &[0], &[w]));
    spaces::words(b"aixw", 0, c.b(8, 10), &mut |w| c.case("script", &[0], &[w]));
    spaces::words(b"ab0ip", 0, c.b(7, 8), &mut |w| c.case("script", &[0], &[w]));
    c.space("many interruptions");
    for n in [2usize, 3, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096, 65535, 65536, 65537, 100000] {
        let i = vec![b'i'; n];
        for (a, b) in [(&b""[..], &b"a"[..]), (b"a", b"a"), (b"a", b"b"), (b"ab", b""), (b"", b""), (b"a", b"xb")] {
            c.case("script", &[0], &[&[a, &i, b].concat()]);
        }
    }
    c.space("all words of two bytes");
    spaces::byte_pairs(true, &mut |w| c.case("raw", &[0], &[w]));
    c.space("families with interruptions and errors");
    for n in [1usize, 5, 20, 60, 130, 255, 256, 257, 1000, 4096, 8192, 8193, 65537] {
        for f in 0..spaces::FAMILIES {
            let w = spaces::family(f, n);
            c.case("raw", &[0], &[&w]);
            c.case("raw", &[1], &[&w]);
            if n <= 130 {
                for k in (0..=n).step_by(10) {
                    c.case("raw", &[2, k as i64], &[&w]);
                    c.case("raw", &[3, k as i64], &[&w]);
                }
            }
        }
    }
    c.space("files");
    spaces::words(b"\0a\n\xff", 0, c.b(4, 5), &mut |w| {
        for p in 0..=w.len() as i64 + 2 {
            c.case("file", &[p], &[w]);
        }
        c.case("out", &[1], &[w]);
        c.case("out", &[2], &[w]);
    });
    for n in spaces::thresholds(c.b(65538, 131074)) {
        for f in [0, 7, 10, 22] {
            let w = spaces::family(f, n);
            let l = n as i64;
            for p in [0, 1, 2, l / 2, l - 1, l, l + 1, 1 << 32, (1 << 32) + 1, i64::MAX, -1] {
                c.case("file", &[p], &[&w]);
            }
            for k in [1, 7, 4096, l] {
                if k > 1 || n <= 5000 {
                    c.case("out", &[k], &[&w]);
                }
            }
        }
    }
    c.space("sequences of reads of every size");
    for n in [0usize, 1, 2, 3, 5, 8, 8190, 8191, 8192, 8193, 8195, 16384, 16389, 40000] {
        let w = spaces::family(10, n);
        all_sequences(RSIZES.len(), c.b(3, 4), &mut |q| c.case("reads", q, &[&w]));
    }
    c.space("sequences of writes of every size");
    all_sequences(WSIZES.len() + 3, c.b(4, 5), &mut |q| c.case("writes", q, &[]));
    c.space("named pipes, links, unusable files");
    for n in [0usize, 1, 2, 100, 4096, 65536, 65537, 200000] {
        for f in [7, 10] {
            let w = spaces::family(f, n);
            for p in [0i64, 1, n as i64 / 2 + 1, n as i64, n as i64 + 1] {
                for k in [0i64, 1, 2] {
                    c.case("fifo", &[p, k], &[&w]);
                }
                c.case("link", &[p], &[&w]);
            }
        }
    }
    for k in 0..7 {
        for p in [0, 1, 5] {
            c.case("unusable", &[p, k], &[]);
        }
    }
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// every helper over one script, given as the list of reader answers
fn script(env: &mut Env, s: &[u8]) -> R {
    let letters: Vec<u8> = s.iter().filter_map(|&c| letter(c)).collect();
    let broken = s.iter().any(|&c| kind(c).is_some());
    let what = || format!("reader answers {}", show(s));
    for chunk in [false, true] {
        // letter by letter
        for panicking in [false, true] {
            let mut r = Script { s, pos: 0, chunk };
            let mut at = 0;
            for call in 0.. {
                while at < s.len() && s[at] == b'i' {
                    at += 1;
                }
                let want = s.get(at).cloned();
                at = (at + 1).min(s.len());
                env.step();
                if panicking {
                    let got = quiet(|| io::next_char(&mut r));
                    match want {
                        Some(c) => match letter(c) {
                            Some(l) => ensure!(got == Some(Some(l)), "next_char, call {}: {:?} instead of letter {} ({})", call, got, l, what()),
                            None => ensure!(got.is_none(), "next_char, call {}: {:?} although the reader fails ({})", call, got, what()),
                        },
                        None => ensure!(got == Some(None), "next_char, call {}: {:?} instead of the end ({})", call, got, what()),
                    }
                } else {
                    let got = io::read_char(&mut r);
                    match want {
                        Some(c) => match letter(c) {
                            Some(l) => ensure!(got.as_ref().ok() == Some(&l), "read_char, call {}: {:?} instead of letter {} ({})", call, got, l, what()),
                            None => ensure!(
                                got.as_ref().err().map(|e| e.kind()) == kind(c),
                                "read_char, call {}: {:?} although the reader fails with {:?} ({})",
                                call,
                                got,
                                kind(c),
                                what()
                            ),
                        },
                        None => ensure!(
                            got.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::UnexpectedEof),
                            "read_char, call {}: {:?} instead of the end ({})",
                            call,
                            got,
                            what()
                        ),
                    }
                }
                ensure!(r.pos == at, "call {} moves the reader to answer {} instead of {} ({})", call, r.pos, at, what());
                if want.is_none() {
                    // once more after the end
                    let again = quiet(|| io::next_char(&mut r));
                    ensure!(again == Some(None), "after the end: {:?} ({})", again, what());
                    break;
                }
            }
        }
        let mut r = Script { s, pos: 0, chunk };
        env.step();
        let got = quiet(|| core::number_of_runs(&mut r));
        if broken {
            ensure!(got.is_none(), "number_of_runs returns {:?} although the reader fails ({})", got, what());
        } else {
            let want = model::runs(&letters);
            ensure!(got == Some(want), "number_of_runs is {:?} instead of {} ({})", got, want, what());
        }
        env.seen(&(letters.len(), broken, got));
    }
    env.validated += 1;
    env.note = Some(format!("{} letters", letters.len()));
    Ok(())
}

/// hands out a text of arbitrary bytes, with an interruption before every letter or one error at a place
struct Raw<'a> {
    t: &'a [u8],
    pos: usize,
    mode: i64,
    place: usize,
    done: bool,
}
impl Read for Raw<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let here = match self.mode {
            1 => true,
            2 | 3 => self.pos == self.place,
            _ => false,
        };
        if here && !self.done {
            self.done = true;
            return Err(if self.mode == 3 { ErrorKind::Other.into() } else { ErrorKind::Interrupted.into() });
        }
        if b.is_empty() || self.pos == self.t.len() {
            return Ok(0);
        }
        b[0] = self.t[self.pos];
        self.pos += 1;
        if self.mode == 1 {
            self.done = false;
        }
        Ok(1)
    }
}
fn raw(env: &mut Env, t: &[u8], mode: i64, place: usize) -> R {
    let new = || Raw { t, pos: 0, mode, place, done: false };
    env.steps += 2;
    let got = quiet(|| core::number_of_runs(&mut new()));
    let want = model::runs(t);
    if mode == 3 {
        ensure!(got.is_none(), "number_of_runs of {} returns {:?} although the reader fails at {}", show(t), got, place);
    } else {
        ensure!(got == Some(want), "number_of_runs of {} is {:?} instead of {} (mode {} place {})", show(t), got, want, mode, place);
    }
    let mut r = new();
    let mut v = vec![];
    let end = loop {
        match io::read_char(&mut r) {
            Ok(c) => v.push(c),
            Err(e) => break e.kind(),
        }
        ensure!(v.len() <= t.len(), "read_char delivers more than {}", show(t));
    };
    let whole = if mode == 3 { &t[..place] } else { t };
    ensure!(v == whole, "read_char delivers {} of {}", show(&v), show(t));
    ensure!(end == if mode == 3 { ErrorKind::Other } else { ErrorKind::UnexpectedEof }, "read_char ends {} with {:?}", show(t), end);
    env.seen(&(mode, want));
    Ok(())
}

/// sizes of reads; -1 a read into two buffers, -2 an exact read of three bytes
const RSIZES: [i64; 9] = [0, 1, 2, 3, 8191, 8192, 8193, -1, -2];
const WSIZES: [usize; 6] = [0, 1, 3, 8191, 8192, 8193];
fn all_sequences(letters: usize, depth: usize, f: &mut dyn FnMut(&[i64])) {
    fn rec(v: &mut Vec<i64>, letters: usize, depth: usize, f: &mut dyn FnMut(&[i64])) {
        f(v);
        if v.len() < depth {
            for x in 0..letters {
                v.push(x as i64);
                rec(v, letters, depth, f);
                v.pop();
            }
        }
    }
    rec(&mut vec![], letters, depth, f)
}
fn reads(env: &mut Env, f: &str, t: &[u8], ops: &[i64]) -> R {
    let mut s = io::stream_or_stdin(Some(f));
    let mut at = 0;
    for (i, &o) in ops.iter().enumerate() {
        env.step();
        let k = RSIZES[o as usize];
        let fault = |e: std::io::Error| Fail::Bad(format!("read {} of {:?} of {}: {}", i, ops, show(t), e));
        let mut buffer = vec![0u8; if k < 0 { 5 } else { k as usize }];
        if k == -2 {
            let r = s.read_exact(&mut buffer[..3]);
            if t.len() - at < 3 {
                ensure!(r.as_ref().err().map(|e| e.kind()) == Some(ErrorKind::UnexpectedEof), "exact read {} of {:?} of {} beyond its end gives {:?}", i, ops, show(t), r);
                // how much was taken is not specified
                return Ok(());
            }
            r.map_err(fault)?;
            ensure!(buffer[..3] == t[at..at + 3], "exact read {} of {:?} of {} gives {} at {}", i, ops, show(t), show(&buffer[..3]), at);
            at += 3;
            continue;
        }
        let n = if k == -1 {
            let (a, b) = buffer.split_at_mut(2);
            s.read_vectored(&mut [std::io::IoSliceMut::new(a), std::io::IoSliceMut::new(b)])
        } else {
            s.read(&mut buffer)
        }
        .map_err(fault)?;
        ensure!(n <= buffer.len() && at + n <= t.len(), "read {} of {:?} of {} gives {} bytes at {}", i, ops, show(t), n, at);
        ensure!(n > 0 || buffer.is_empty() || at == t.len(), "read {} of {:?} of {} ends at {}", i, ops, show(t), at);
        ensure!(buffer[..n] == t[at..at + n], "read {} of {:?} of {} gives {} at {}", i, ops, show(t), show(&buffer[..n]), at);
        at += n;
    }
    let mut v = vec![];
    env.step();
    s.read_to_end(&mut v).map_err(|e| Fail::Bad(format!("the end of {}: {}", show(t), e)))?;
    ensure!(v == t[at..], "after the reads {:?} the rest of {} from {} on is {}", ops, show(t), at, show(&v));
    ensure!(s.read(&mut [0]).ok() == Some(0), "{} goes on after its end", show(t));
    env.seen(&(t.len(), ops));
    Ok(())
}
fn writes(env: &mut Env, f: &str, ops: &[i64]) -> R {
    let io_err = |e: std::io::Error| Fail::Infra(e.to_string());
    std::fs::write(f, b"what was there before").map_err(io_err)?;
    let mut w = io::stream_or_stdout(Some(f));
    let mut want: Vec<u8> = vec![];
    let mut next = 0u8;
    for (i, &o) in ops.iter().enumerate() {
        env.step();
        let fault = |e: std::io::Error| Fail::Bad(format!("write {} of {:?}: {}", i, ops, e));
        let mut letters = |n: usize| -> Vec<u8> {
            (0..n)
                .map(|_| {
                    next = next.wrapping_mul(5).wrapping_add(7);
                    next
                })
                .collect()
        };
        let o = o as usize;
        if o < WSIZES.len() {
            let b = letters(WSIZES[o]);
            let n = w.write(&b).map_err(fault)?;
            ensure!(n <= b.len() && (n > 0 || b.is_empty()), "write {} of {:?} takes {} of {} bytes", i, ops, n, b.len());
            want.extend(&b[..n]);
        } else if o == WSIZES.len() {
            let (a, b) = (letters(2), letters(5000));
            let n = w.write_vectored(&[std::io::IoSlice::new(&a), std::io::IoSlice::new(&b)]).map_err(fault)?;
            ensure!(n <= 5002 && n > 0, "write {} of {:?} takes {} of 5002 bytes", i, ops, n);
            want.extend(&[a, b].concat()[..n]);
        } else if o == WSIZES.len() + 1 {
            write!(w, "{} {:?}", i, ops).map_err(fault)?;
            want.extend(format!("{} {:?}", i, ops).bytes());
        } else {
            w.flush().map_err(fault)?;
            let now = std::fs::read(f).map_err(io_err)?;
            ensure!(now == want, "after the flush {} of {:?} the file holds {} instead of {}", i, ops, show(&now), show(&want));
        }
    }
    drop(w);
    let now = std::fs::read(f).map_err(io_err)?;
    ensure!(now == want, "after {:?} the file holds {} instead of {}", ops, show(&now), show(&want));
    env.seen(&ops);
    Ok(())
}

/// all functions that read a file by its name
fn check_file(env: &mut Env, f: &str, t: &[u8], p: i64, fresh: &mut dyn FnMut()) -> R {
    let p = p as usize;
    let want = if p == 0 || p >= t.len() { t } else { &t[..p] };
    env.steps += 4;
    fresh();
    let got = io::file2byte_vector(f, p);
    ensure!(got == want, "file2byte_vector with prefix {} of {} is {}", p, show(t), show(&got));
    fresh();
    let got = io::file_or_stdin2byte_vector(Some(f), p);
    ensure!(got == want, "file_or_stdin2byte_vector with prefix {} of {} is {}", p, show(t), show(&got));
    fresh();
    let mut v = vec![];
    io::stream_or_stdin(Some(f)).read_to_end(&mut v).map_err(|e| Fail::Bad(format!("stream of {}: {}", show(t), e)))?;
    ensure!(v == t, "stream_or_stdin of {} delivers {}", show(t), show(&v));
    fresh();
    let mut s = io::stream_or_stdin(Some(f));
    let mut v = vec![];
    while let Some(c) = io::next_char(&mut s) {
        v.push(c);
        ensure!(v.len() <= t.len(), "the stream of {} delivers more", show(t));
    }
    ensure!(v == t, "stream_or_stdin and next_char of {} deliver {}", show(t), show(&v));
    env.seen(&(want.len(), t.len()));
    Ok(())
}

fn judge(env: &mut Env, c: &Case) -> R {
    let io_err = |e: std::io::Error| Fail::Infra(e.to_string());
    let f = env.file("c44in");
    let _ = std::fs::remove_dir(&f);
    let _ = std::fs::remove_file(&f);
    match c.kind.as_str() {
        "script" => script(env, &c.words[0]),
        "raw" => raw(env, &c.words[0], c.num(0), c.num(1) as usize),
        "file" => {
            let t = &c.words[0];
            std::fs::write(&f, t).map_err(io_err)?;
            check_file(env, &f, t, c.num(0), &mut || ())?;
            let after = std::fs::read(&f).map_err(io_err)?;
            ensure!(&after == t, "reading changes the file {}", show(t));
            let mut v = vec![];
            // streams of the same file do not share a position
            let (mut a, mut b) = (io::stream_or_stdin(Some(&f)), io::stream_or_stdin(Some(&f)));
            while let Some(x) = io::next_char(&mut a) {
                let y = io::next_char(&mut b);
                ensure!(y == Some(x), "two streams of {} deliver {} and {:?}", show(t), x, y);
                v.push(x);
                if v.len() > 70 {
                    break;
                }
            }
            Ok(())
        }
        "reads" => {
            std::fs::write(&f, &c.words[0]).map_err(io_err)?;
            reads(env, &f, &c.words[0], &c.nums)
        }
        "writes" => writes(env, &f, &c.nums),
        "link" => {
            let t = &c.words[0];
            let target = env.file("c44target");
            std::fs::write(&target, t).map_err(io_err)?;
            std::os::unix::fs::symlink(&target, &f).map_err(io_err)?;
            check_file(env, &f, t, c.num(0), &mut || ())
        }
        "fifo" => {
            let t = c.words[0].clone();
            let path = std::ffi::CString::new(f.clone()).unwrap();
            let rc = unsafe { libc::mkfifo(path.as_ptr(), 0o600) };
            if rc != 0 {
                return Err(Fail::Infra("mkfifo".into()));
            }
            let step = [t.len().max(1), 4096, 1000][c.num(1) as usize % 3];
            let mut writer: Option<std::thread::JoinHandle<()>> = None;
            // the writer of the last pipe ends when nobody listens any more; one whom nobody ever heard is woken up
            let finish = |w: Option<std::thread::JoinHandle<()>>| {
                if let Some(w) = w {
                    while !w.is_finished() {
                        let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&f);
                        std::thread::yield_now();
                    }
                    let _ = w.join();
                }
            };
            let r = check_file(env, &f, &t, c.num(0), &mut || {
                finish(writer.take());
                let (f, t) = (f.clone(), t.clone());
                writer = Some(std::thread::spawn(move || {
                    if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(&f) {
                        for p in t.chunks(step) {
                            // the reader may have what it wants already
                            if w.write_all(p).is_err() {
                                break;
                            }
                        }
                    }
                }));
            });
            finish(writer.take());
            std::fs::remove_file(&f).map_err(io_err)?;
            r
        }
        "out" => {
            let t = &c.words[0];
            for old in [None, Some(t.len() + 5), Some(t.len() / 2)] {
                let _ = std::fs::remove_file(&f);
                if let Some(n) = old {
                    std::fs::write(&f, vec![b'#'; n]).map_err(io_err)?;
                }
                env.step();
                let mut w = io::stream_or_stdout(Some(&f));
                for p in t.chunks(c.num(0).max(1) as usize) {
                    w.write_all(p).map_err(|e| Fail::Bad(format!("write of {}: {}", show(t), e)))?;
                }
                w.flush().map_err(|e| Fail::Bad(format!("flush of {}: {}", show(t), e)))?;
                let flushed = std::fs::read(&f).map_err(io_err)?;
                ensure!(&flushed == t, "stream_or_stdout over {:?} old bytes: {} instead of {} after the flush", old, show(&flushed), show(t));
                drop(w);
                let end = std::fs::read(&f).map_err(io_err)?;
                ensure!(&end == t, "stream_or_stdout over {:?} old bytes leaves {} instead of {}", old, show(&end), show(t));
                // without a flush the end of the stream has to deliver the rest
                let mut w = io::stream_or_stdout(Some(&f));
                w.write_all(t).map_err(|e| Fail::Bad(format!("write of {}: {}", show(t), e)))?;
                drop(w);
                let end = std::fs::read(&f).map_err(io_err)?;
                ensure!(&end == t, "stream_or_stdout, dropped: {} instead of {}", show(&end), show(t));
            }
            env.seen(&t.len());
            Ok(())
        }
        _ => {
            let p = c.num(0) as usize;
            let g = match c.num(1) {
                0 => format!("{}-missing", f),
                1 => env.scratch.to_str().unwrap().to_string(),
                2 => String::new(),
                3 => format!("{}/missing/below", f),
                4 => "nul\0byte".to_string(),
                5 => {
                    std::os::unix::fs::symlink(format!("{}-nowhere", f), &f).map_err(io_err)?;
                    f.clone()
                }
                _ => "x".repeat(5000),
            };
            env.steps += 4;
            let a = quiet(|| io::file2byte_vector(&g, p));
            ensure!(a.is_none(), "file2byte_vector of an unusable file {} is {:?}", show(g.as_bytes()), a);
            let a = quiet(|| io::file_or_stdin2byte_vector(Some(&g), p));
            ensure!(a.is_none(), "file_or_stdin2byte_vector of an unusable file {} is {:?}", show(g.as_bytes()), a);
            let a = quiet(|| io::next_char(&mut io::stream_or_stdin(Some(&g))));
            ensure!(a.is_none(), "the stream of an unusable file {} delivers {:?}", show(g.as_bytes()), a);
            let a = quiet(|| core::number_of_runs(&mut io::stream_or_stdin(Some(&g))));
            ensure!(a.is_none(), "number_of_runs of an unusable file {} is {:?}", show(g.as_bytes()), a);
            if (1..=4).contains(&c.num(1)) || c.num(1) > 5 {
                let a = quiet(|| {
                    let mut w = io::stream_or_stdout(Some(&g));
                    w.write_all(b"x").unwrap();
                    w.flush().unwrap();
                });
                ensure!(a.is_none(), "writing to {} succeeds", show(g.as_bytes()));
            }
            env.seen(&c.num(1));
            Ok(())
        }
    }
}
