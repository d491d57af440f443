//! How texts get in and results get out: delivery channels, prefixes, output files, failing devices, records, repetition.
use super::*;
use crate::ensure;
use crate::server::*;
use crate::util::show;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C28",
        explore: x28,
        judge: j28,
        progs: READERS,
        what: "programs x options x texts; in each, delivery channels, read sizes and schedules of short and interrupted reads",
        bounds: "15 programs in 27 option forms; texts: all words over {a,b} up to length 2 (4), line-end, control, NUL and high-byte words, all 255 bytes, two families at lengths around 4096, 8192 and 65537 (thorough also 16384, 32768, 65536), one at 1048577 (1048576, 1500003; without schedules, in pipes only up to 1048576); channels: standard input as file and pipe, -i file, -i /dev/stdin, -i named pipe; transfer sizes 1,2,3,7,4095,8191 bytes per read; every placement of up to 2 (3) deviations from {1-byte read, all-but-one-byte read, EINTR} among the read and open calls (one deviation and a stratified choice of calls where there are more than 24); with prefix lengths 1, around the text length and far beyond it",
        oracle: "the execution on a regular file as standard input",
        fault: false,
    },
    Prop {
        id: "C29",
        explore: x29,
        judge: j29,
        progs: PREFIXERS,
        what: "programs with a prefix option x options x texts x channels; in each, all prefix lengths",
        bounds: "11 programs in 20 option forms; texts: all words over {a,b} up to length 4 (6), over {a,b,c} up to 3 (4), line-end, NUL and high-byte words with all prefix lengths 0..n+2, n+1000, and around 2^8, 2^16, 2^31, 2^32, 2^63, 2^64; families at lengths around 256, 4096, 8192, 65537 (65536) and at 1048578 (2097155) with prefix lengths around powers of two and the text length; channels: standard input as file and 1-byte pipe, -i file, -i named pipe",
        oracle: "the same program on the cut text without the option",
        fault: false,
    },
    Prop {
        id: "C30",
        explore: x30,
        judge: j30,
        progs: WRITERS,
        what: "programs with an output-file option x options x texts; in each, output states and schedules of short and interrupted writes",
        bounds: "10 programs in 27 option forms; texts as for C28; output file absent, empty, shorter, longer by 1 and by 70000 bytes; transfer sizes 1,2,3,7,1023,4095 bytes per write on file and standard output; every placement of up to 2 (3) deviations from {1-byte write, all-but-one-byte write, EINTR} among the write and open calls (one deviation and a stratified choice where there are more than 24)",
        oracle: "the bytes on standard output of the undisturbed execution",
        fault: false,
    },
    Prop {
        id: "C31",
        explore: x31,
        judge: j31,
        progs: EVERY,
        what: "programs x options x texts x input and output channels; in each, every point of failure",
        bounds: "21 programs in 42 option forms; texts: short words and families at lengths around 4096, 8192 (65536), texts of 65537 and 1048577; input from standard input, file and named pipe, output to standard output and file, with and without a prefix option; every read, write and open call of the execution (stratified choice where there are more than 24) failing with EIO, ENOSPC (once and lasting), EACCES, directly, after 1-byte transfers and after every single earlier short or interrupted transfer (thorough: every two); full device and closed pipe as standard output, /dev/full as output file; missing file, directory, path below a file and empty name as input and output; directory as standard input",
        oracle: "non-zero exit status",
        fault: true,
    },
    Prop {
        id: "C34",
        explore: x34,
        judge: j34,
        progs: ANALYTIC,
        what: "analytic programs x options x texts x prefix lengths x channels",
        bounds: "8 programs in 18 option forms (all four bwt forms, orders 0..2 and 1..7); all words over {a,b} up to length 6 (9), {a,b,c} up to 4 (6), over byte-boundary letters up to 4 (5), families at every length up to 140 (160) and around powers of two up to 65538 (131074); prefix lengths 0..n+1 for the short ones; clocks advancing by 0 ms to 58 days per look; standard input, file (absolute, relative and odd names) and /dev/stdin",
        oracle: "the record grammar and the values known from the input",
        fault: false,
    },
    Prop {
        id: "C35",
        explore: x35,
        judge: j35,
        progs: EVERY,
        what: "programs x options x texts; in each, log settings, entropy values and repetitions",
        bounds: "all programs but randomstring in 41 option forms (enumerate_lexparse, which never ends, up to its 40th (200th) line with every log setting and three entropy values); texts: all words over {a,b} up to length 3 (5), over {a,b,c} up to length 3 (4), line-end, NUL and high-byte words, all 255 bytes, families at lengths around 256 and 4096 (65536); RUST_LOG unset, empty, off, error, warn, info, debug, trace, a filter by target and a malformed one, each with 2 (5) entropy values; clock advancing by 0, 1 ns, 250 ms, 40000 s per reading; long texts of length 4097, 20000, 65537 with entropy values and repetitions; unrelated environment variables; three repetitions; standard output and output file",
        oracle: "the execution without RUST_LOG and with the first entropy value",
        fault: false,
    },
];

pub struct P {
    pub(super) name: &'static str,
    pub(super) opts: &'static [&'static [&'static str]],
    /// reads a text
    pub(super) reads: bool,
    /// has a prefix option / an option for the output file
    pub(super) p: bool,
    pub(super) o: bool,
    /// texts with zero bytes are in its domain
    pub(super) zero: bool,
    /// longest text it is given here
    pub(super) max: usize,
}
const BWTO: &[&[&str]] = &[&[], &["-n"], &["-u"], &["-u", "-n"]];
const NONE: &[&[&str]] = &[&[]];
pub(super) const TABLE: &[P] = &[
    P { name: "bwt", opts: BWTO, reads: true, p: true, o: true, zero: false, max: 1 << 20 },
    P { name: "count_r", opts: BWTO, reads: true, p: true, o: false, zero: false, max: 1 << 20 },
    P { name: "count_z", opts: NONE, reads: true, p: true, o: true, zero: false, max: 1 << 20 },
    P { name: "count_lexparse", opts: NONE, reads: true, p: true, o: true, zero: false, max: 1 << 20 },
    P { name: "count_sigma", opts: NONE, reads: true, p: true, o: false, zero: true, max: 1 << 20 },
    P { name: "count_runs", opts: NONE, reads: true, p: false, o: false, zero: true, max: 1 << 20 },
    P { name: "entropy", opts: &[&["-o", "0"], &["-o", "1"], &["-o", "2"]], reads: true, p: true, o: false, zero: false, max: 1 << 20 },
    P { name: "entropy_kmer", opts: &[&["-o", "1"], &["-o", "2"], &["-o", "7"]], reads: true, p: true, o: false, zero: false, max: 1 << 20 },
    P { name: "is_stringattractor", opts: &[&["-a", "0"], &["-a", "1", "0", "2"]], reads: true, p: true, o: false, zero: false, max: 4100 },
    P { name: "lyndonfactorization", opts: NONE, reads: true, p: true, o: true, zero: true, max: 1 << 20 },
    P { name: "mus", opts: NONE, reads: true, p: true, o: false, zero: false, max: 8200 },
    P { name: "mtf", opts: NONE, reads: true, p: false, o: true, zero: true, max: 1 << 20 },
    P { name: "rle", opts: &[&[], &["-z"], &["--human"]], reads: true, p: false, o: true, zero: true, max: 1 << 20 },
    P { name: "reverse", opts: NONE, reads: true, p: true, o: true, zero: true, max: 1 << 20 },
    P {
        name: "escape",
        opts: &[&["-e", "255", "-f", "0,97", "-t", "1,2"], &["-e", "97"], &["-e", "98", "-f", "97,10", "-t", "97,10", "--is-reversion"]],
        reads: true,
        p: true,
        o: true,
        zero: true,
        max: 1 << 20,
    },
    P {
        name: "word",
        opts: &[
            &["-k", "1", "-n", "fibonacci"],
            &["-k", "7", "-n", "vtm"],
            &["-k", "5", "-n", "binary-de-brujin"],
            &["-k", "12", "-n", "thue-morse"],
            &["-k", "14", "-n", "period-doubling"],
            &["-k", "30", "-n", "kolakoski"],
        ],
        reads: false,
        p: false,
        o: true,
        zero: true,
        max: 0,
    },
    P {
        name: "lyndonwords",
        opts: &[&["-l", "1", "-s", "1"], &["-l", "5"], &["-l", "3", "-s", "4"], &["-l", "4", "-s", "11"]],
        reads: false,
        p: false,
        o: true,
        zero: true,
        max: 0,
    },
    P { name: "enumerate", opts: &[&["2", "1"], &["3", "1", "3"], &["26", "2"]], reads: false, p: false, o: false, zero: true, max: 0 },
    P { name: "generator_kmer", opts: NONE, reads: false, p: false, o: false, zero: true, max: 0 },
    P { name: "enumerate_lexparse", opts: NONE, reads: false, p: false, o: false, zero: true, max: 0 },
    P {
        name: "randomstring",
        opts: &[&["-a", "0"], &["-a", "2", "-p", "30"], &["-a", "0", "-p", "5000"]],
        reads: false,
        p: false,
        o: true,
        zero: true,
        max: 0,
    },
];
const READERS: &[&str] = &[
    "bwt", "count_r", "count_z", "count_lexparse", "count_sigma", "count_runs", "entropy", "entropy_kmer", "is_stringattractor",
    "lyndonfactorization", "mus", "mtf", "rle", "reverse", "escape",
];
const PREFIXERS: &[&str] = &[
    "bwt", "count_r", "count_z", "count_lexparse", "count_sigma", "entropy", "entropy_kmer", "is_stringattractor", "lyndonfactorization",
    "mus", "reverse", "escape",
];
const WRITERS: &[&str] = &["bwt", "count_z", "count_lexparse", "lyndonfactorization", "mtf", "rle", "reverse", "escape", "word", "lyndonwords"];
const ANALYTIC: &[&str] =
    &["count_r", "count_sigma", "count_z", "count_lexparse", "entropy", "entropy_kmer", "lyndonfactorization", "mus"];
pub(super) const EVERY: &[&str] = &[
    "bwt", "count_r", "count_z", "count_lexparse", "count_sigma", "count_runs", "entropy", "entropy_kmer", "is_stringattractor",
    "lyndonfactorization", "mus", "mtf", "rle", "reverse", "escape", "word", "lyndonwords", "enumerate", "generator_kmer",
    "enumerate_lexparse", "randomstring",
];

pub(super) fn specials(zero: bool, f: &mut dyn FnMut(&[u8])) {
    for w in [
        &b"\n"[..], b"a\n", b"\na", b"ab\r\n", b"\n\n", b"\x1a", b"a\x1ab", b"\x04", b"\xff", b"\xff\xfe", b"\xef\xbb\xbfab", b"\x80", b" ", b"ab ",
        b"-", b"abracadabra", b"banana\n", b"aab\nab\nb", b"0011", b"(a,1)",
    ] {
        f(w);
    }
    let all: Vec<u8> = (1..=255).collect();
    f(&all);
    if zero {
        for w in [&b"\0"[..], b"a\0", b"\0a", b"a\0b\0", b"ab\0\0"] {
            f(w);
        }
        let all: Vec<u8> = (0..=255).rev().collect();
        f(&all);
    }
}
/// the shim plays both ends of a pipe, so the text has to fit into it
const PIPE_HOLDS: usize = 1 << 20;
/// one more than 2^20
pub(super) const MILLION: usize = (1 << 20) + 1;
/// texts of about 2^20 bytes for the forms that take them
fn huge_texts(p: &P, j: usize, lens: &[usize], f: &mut dyn FnMut(&[u8])) {
    if p.max < 1 << 20 {
        return;
    }
    for &n in lens {
        let w = spaces::family(10, n);
        if decodable(p, j, &w) {
            f(&w);
        }
    }
}
fn long_texts(max: usize, lens: &[usize], f: &mut dyn FnMut(&[u8])) {
    for &n in lens {
        if n <= max {
            for k in [5, 10] {
                f(&spaces::family(k, n));
            }
        }
    }
}
pub(super) fn each(reads: bool, f: &mut dyn FnMut(usize, usize, &P)) {
    for (i, p) in TABLE.iter().enumerate() {
        if p.reads == reads {
            for j in 0..p.opts.len() {
                f(i, j, p);
            }
        }
    }
}
/// may the form be given this text (reversion needs a text it can decode; all others are total on their domain)
pub(super) fn decodable(p: &P, j: usize, w: &[u8]) -> bool {
    if !(p.name == "escape" && j == 2) {
        return true;
    }
    let mut i = 0;
    while i < w.len() {
        if w[i] == b'b' {
            if i + 1 >= w.len() || !b"ab\n".contains(&w[i + 1]) {
                return false;
            }
            i += 1;
        }
        i += 1;
    }
    true
}

// ---------------------------------------------------------------- running
pub(super) const CH_FIFO: i64 = 4;
#[derive(Clone)]
pub(super) struct Job<'a> {
    pub(super) prog: &'static str,
    pub(super) args: Vec<String>,
    pub(super) input: &'a [u8],
    pub(super) stdin: Stdin,
    pub(super) stdout: Stdout,
    pub(super) max_read: u32,
    pub(super) max_write: u32,
    pub(super) sticky: bool,
    pub(super) envs: Vec<String>,
    pub(super) entropy: u64,
    pub(super) clock_step: u64,
}
impl<'a> Job<'a> {
    pub(super) fn prefix(&mut self, n: i64) {
        if n > 0 {
            self.args.extend(["-p".to_string(), n.to_string()]);
        }
    }
    pub(super) fn new(env: &mut Env, p: &P, j: usize, text: &'a [u8], chan: i64) -> Result<Job<'a>, Fail> {
        let mut args = opts(p.opts[j]);
        let mut input = text;
        let mut stdin = Stdin::File;
        match chan {
            CH_FILE => {
                let f = env.file("in");
                std::fs::write(&f, text).map_err(|e| Fail::Infra(e.to_string()))?;
                args.extend(["-i".to_string(), f]);
                input = b"";
            }
            CH_PIPE => stdin = Stdin::Pipe,
            CH_DEVSTDIN => {
                stdin = Stdin::Pipe;
                args.extend(opts(&["-i", "/dev/stdin"]));
            }
            CH_FIFO => {
                stdin = Stdin::Fifo;
                let f = env.file("fifo");
                let c = std::ffi::CString::new(f.clone()).unwrap();
                unsafe {
                    if libc::access(c.as_ptr(), libc::F_OK) != 0 && libc::mkfifo(c.as_ptr(), 0o600) != 0 {
                        return Err(Fail::Infra("mkfifo".into()));
                    }
                }
                args.extend(["--infilename".to_string(), f]);
            }
            _ => {}
        }
        Ok(Job {
            prog: p.name,
            args,
            input,
            stdin,
            stdout: Stdout::File,
            max_read: 0,
            max_write: 0,
            sticky: false,
            envs: vec![],
            entropy: 1,
            clock_step: 1000,
        })
    }
    pub(super) fn run(&self, env: &mut Env, script: &[Script]) -> Result<Out, Fail> {
        let a: Vec<&str> = self.args.iter().map(|s| s.as_str()).collect();
        let mut r = Req::new(&a, self.input);
        r.stdin = self.stdin;
        r.stdout = self.stdout;
        r.max_read = self.max_read;
        r.max_write = self.max_write;
        r.sticky = self.sticky;
        r.env = self.envs.clone();
        r.entropy = self.entropy;
        r.clock_step = self.clock_step;
        r.script = script.to_vec();
        r.want_trace = true;
        env.run(self.prog, &r)
    }
    pub(super) fn text(&self) -> String {
        let mut s = format!("{} {}", self.prog, self.args.join(" "));
        s.push_str(match self.stdin {
            Stdin::File => "",
            Stdin::Pipe => " <pipe",
            Stdin::Closed => " <&-",
            Stdin::Directory => " </",
            Stdin::Fifo => " (text in named pipe)",
        });
        match self.stdout {
            Stdout::File => {}
            Stdout::Full => s.push_str(" >/dev/full"),
            Stdout::BrokenPipe => s.push_str(" >closed pipe"),
        }
        if self.max_read > 0 {
            s.push_str(&format!(" (at most {} bytes per read)", self.max_read));
        }
        if self.max_write > 0 {
            s.push_str(&format!(" (at most {} bytes per write)", self.max_write));
        }
        for e in &self.envs {
            s.push_str(&format!(" [{}]", e));
        }
        if self.entropy != 1 {
            s.push_str(&format!(" [entropy {}]", self.entropy));
        }
        if self.clock_step != 1000 {
            s.push_str(&format!(" [clock step {} ns]", self.clock_step));
        }
        s
    }
}
pub(super) fn show_script(s: &[Script], trace: &[Point]) -> String {
    let v: Vec<String> = s
        .iter()
        .map(|e| {
            let op = trace.get(e.index as usize).map(|p| p.op).unwrap_or(0);
            format!(
                "{} call #{} {}",
                match op {
                    OP_READ => "read",
                    OP_WRITE => "write",
                    OP_OPEN => "open",
                    _ => "?",
                },
                e.index,
                match e.action {
                    ACT_SHORT => format!("transfers {} bytes", e.arg),
                    ACT_EINTR => "is interrupted (EINTR)".into(),
                    ACT_EIO => "fails with EIO".into(),
                    ACT_ENOSPC => "fails with ENOSPC".into(),
                    ACT_EACCES => "fails with EACCES".into(),
                    _ => "?".into(),
                }
            )
        })
        .collect();
    if v.is_empty() { String::new() } else { format!(" where {}", v.join(", ")) }
}
/// benign answers the kernel may give at a point
fn benign(p: &Point, reads: bool, writes: bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    match p.op {
        OP_READ if reads => {
            v.push((ACT_EINTR, 0));
            if p.ret > 1 {
                v.push((ACT_SHORT, 1));
            }
            if p.ret > 2 {
                v.push((ACT_SHORT, p.ret as u32 - 1));
            }
        }
        OP_WRITE if writes => {
            v.push((ACT_EINTR, 0));
            if p.req > 1 {
                v.push((ACT_SHORT, 1));
            }
            if p.req > 2 {
                v.push((ACT_SHORT, p.req - 1));
            }
        }
        OP_OPEN if reads && p.cls == 3 || writes && p.cls == 4 => v.push((ACT_EINTR, 0)),
        _ => {}
    }
    v
}
const MANY: usize = 24;
pub(super) fn selected(i: usize, n: usize) -> bool {
    n <= MANY || i < 10 || i + 5 >= n || i % (n / 8) == 0
}
/// depth-first exploration of all schedules with at most `depth` benign deviations; `visit` judges each execution
pub(super) fn schedules(
    env: &mut Env,
    job: &Job,
    depth: usize,
    reads: bool,
    writes: bool,
    visit: &mut dyn FnMut(&mut Env, &Job, &Out, &[Script]) -> R,
) -> R {
    let mut stack: Vec<Vec<Script>> = vec![vec![]];
    while let Some(s) = stack.pop() {
        let o = job.run(env, &s)?;
        visit(env, job, &o, &s)?;
        let n = o.trace.len();
        let d = if n > MANY { depth.min(1) } else { depth };
        if s.len() >= d {
            continue;
        }
        let from = s.last().map(|e| e.index as usize + 1).unwrap_or(0);
        for i in from..n {
            if !selected(i, n) {
                continue;
            }
            for (action, arg) in benign(&o.trace[i], reads, writes) {
                let mut t = s.clone();
                t.push(Script { index: i as u32, action, arg });
                stack.push(t);
            }
        }
    }
    Ok(())
}

/// equality of what two executions print, apart from time, file name, and rounding of entropies
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    if !a.contains("RESULT") || a.lines().count() != b.lines().count() {
        return false;
    }
    a.lines().zip(b.lines()).all(|(x, y)| {
        if !x.starts_with("RESULT") {
            return x == y;
        }
        let (x, y): (Vec<&str>, Vec<&str>) = (x.split(' ').collect(), y.split(' ').collect());
        x.len() == y.len()
            && x.iter().zip(&y).all(|(f, g)| {
                if f == g {
                    return true;
                }
                match (f.split_once('='), g.split_once('=')) {
                    (Some((k, v)), Some((l, w))) if k == l => match k {
                        "file" | "input" | "time_ms" => true,
                        "entropy" => match (v.parse::<f64>(), w.parse::<f64>()) {
                            (Ok(v), Ok(w)) => (v - w).abs() <= 1e-9 * (1.0 + v.abs()),
                            _ => false,
                        },
                        _ => false,
                    },
                    _ => false,
                }
            })
    })
}
fn compare(job: &Job, s: &[Script], o: &Out, r: &Out, what: &str) -> R {
    let ok = if r.ok() { o.ok() && same(&o.stdout, &r.stdout) } else { o.exit == r.exit };
    ensure!(ok, "{}{}: {}, but {}: {}", job.text(), show_script(s, &o.trace), o.describe(), what, r.describe());
    Ok(())
}
fn pj(c: &Case) -> (&'static P, usize) {
    let p = &TABLE[c.num(0) as usize];
    (p, c.num(1) as usize)
}

// ---------------------------------------------------------------- C28
fn x28(c: &mut Ctx) {
    c.space("short texts");
    let b = c.b(2, 4);
    each(true, &mut |i, j, p| {
        let mut f = |w: &[u8]| {
            if decodable(p, j, w) {
                c.case("chan", &[i as i64, j as i64], &[w])
            }
        };
        spaces::words(b"ab", 0, b, &mut f);
        specials(p.zero, &mut f);
    });
    c.space("with a prefix option");
    each(true, &mut |i, j, p| {
        if p.p && !(p.name == "escape" && j == 2) {
            for (w, ps) in [(&b"a"[..], &[1, 2][..]), (b"abracad\n", &[1, 2, 7, 8, 9, 5000])] {
                for &q in ps {
                    c.case("chan", &[i as i64, j as i64, q], &[w]);
                }
            }
            for n in [300usize, 8193] {
                if n <= p.max {
                    let w = spaces::family(10, n);
                    for q in [255, n as i64 - 1, n as i64, n as i64 + 1, 100_000] {
                        c.case("chan", &[i as i64, j as i64, q], &[&w]);
                    }
                }
            }
        }
    });
    c.space("texts around buffer sizes");
    let l: Vec<usize> = c.b(vec![4097, 8191, 8192, 8193, 65537], vec![4095, 4096, 4097, 8191, 8192, 8193, 12289, 16384, 16385, 32769, 65535, 65536, 65537]);
    each(true, &mut |i, j, p| {
        long_texts(p.max, &l, &mut |w| {
            if decodable(p, j, w) {
                c.case("chan", &[i as i64, j as i64], &[w])
            }
        })
    });
    c.space("texts of more than a million bytes");
    let l: Vec<usize> = c.b(vec![MILLION], vec![MILLION - 1, MILLION, 1_500_003]);
    each(true, &mut |i, j, p| huge_texts(p, j, &l, &mut |w| c.case("chan", &[i as i64, j as i64], &[w])));
}
fn j28(env: &mut Env, c: &Case) -> R {
    let (p, j) = pj(c);
    let text = &c.words[0];
    let mut job = Job::new(env, p, j, text, CH_STDIN)?;
    job.prefix(c.num(2));
    let r = job.run(env, &[])?;
    let what = "with the text as standard input";
    let depth = match text.len() {
        100_000.. => 0,
        1001.. => 1,
        _ if env.thorough => 3,
        _ => 2,
    };
    for ch in [CH_STDIN, CH_PIPE, CH_FILE, CH_DEVSTDIN, CH_FIFO] {
        if text.len() > PIPE_HOLDS && ch != CH_STDIN && ch != CH_FILE {
            continue;
        }
        let mut job = Job::new(env, p, j, text, ch)?;
        job.prefix(c.num(2));
        schedules(env, &job, depth, true, false, &mut |_, job, o, s| compare(job, s, o, &r, what))?;
        let sizes: &[u32] = if text.len() > 100_000 { &[65535] } else if text.len() > 1000 { &[1000, 4095, 8191] } else { &[1, 2, 3, 7] };
        for &m in sizes {
            if m as usize <= text.len() {
                job.max_read = m;
                let o = job.run(env, &[])?;
                compare(&job, &[], &o, &r, what)?;
            }
        }
        if text.len() > 1000 && text.len() < 10000 {
            job.max_read = 1;
            let o = job.run(env, &[])?;
            compare(&job, &[], &o, &r, what)?;
        }
    }
    env.seen(&(p.name, &r.stdout));
    Ok(())
}

// ---------------------------------------------------------------- C29
fn x29(c: &mut Ctx) {
    c.space("short texts, all prefix lengths");
    let (b, t) = c.b((4, 3), (6, 4));
    each(true, &mut |i, j, p| {
        if !p.p || p.name == "escape" && j == 2 {
            return;
        }
        let mut f = |w: &[u8]| {
            for ch in [CH_STDIN, CH_FILE, CH_PIPE, CH_FIFO] {
                c.case("prefix", &[i as i64, j as i64, ch], &[w])
            }
        };
        spaces::words(b"ab", 1, b, &mut f);
        spaces::words(b"abc", 1, t, &mut f);
        specials(p.zero, &mut f);
    });
    c.space("long texts");
    let l: Vec<usize> = c.b(vec![257, 4097, 8193, 65537], vec![255, 257, 4097, 8191, 8192, 8193, 16385, 65537]);
    each(true, &mut |i, j, p| {
        if !p.p || p.name == "escape" && j == 2 {
            return;
        }
        long_texts(p.max, &l, &mut |w| {
            for ch in [CH_STDIN, CH_FILE, CH_PIPE] {
                c.case("prefix", &[i as i64, j as i64, ch], &[w])
            }
        })
    });
    c.space("texts of more than a million bytes");
    let l: Vec<usize> = c.b(vec![MILLION + 1], vec![MILLION + 1, 2_097_155]);
    each(true, &mut |i, j, p| {
        if p.p {
            huge_texts(p, j, &l, &mut |w| c.case("prefix", &[i as i64, j as i64, if j % 2 == 0 { CH_STDIN } else { CH_FILE }], &[w]))
        }
    });
}
fn j29(env: &mut Env, c: &Case) -> R {
    let (p, j) = pj(c);
    let text = &c.words[0];
    let n = text.len();
    let ch = c.num(2);
    let mut ps: Vec<usize> = if n <= 100 {
        (0..=n + 2).collect()
    } else if n > 1 << 20 {
        // (the full length goes through the prefix path as well)
        let mut v = vec![65536, MILLION - 2, MILLION - 1, MILLION, n];
        v.dedup();
        v
    } else {
        let mut v = vec![0, 1, 2, 100, n / 2, n - 1, n, n + 1];
        for k in [128usize, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536] {
            if k < n + 2 {
                v.push(k);
            }
        }
        v.sort();
        v.dedup();
        v
    };
    ps.push(n + 1000);
    if n == 2 || n > 100 && n < 1 << 20 || n < 1 << 20 && ch == CH_STDIN {
        ps.extend([256, 257, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 1, usize::MAX]);
    }
    for q in ps {
        let cut = if q == 0 { n } else { q.min(n) };
        let r = Job::new(env, p, j, &text[..cut], ch)?.run(env, &[])?;
        let mut job = Job::new(env, p, j, text, ch)?;
        job.args.extend([if q % 2 == 0 { "-p" } else { "--prefixlength" }.to_string(), q.to_string()]);
        if ch == CH_PIPE {
            job.max_read = if n > 1000 { 1000 } else { 1 };
        }
        let o = job.run(env, &[])?;
        compare(&job, &[], &o, &r, "on the cut text")?;
        env.seen(&(p.name, &o.stdout));
    }
    Ok(())
}

// ---------------------------------------------------------------- C30
fn x30(c: &mut Ctx) {
    c.space("generators");
    each(false, &mut |i, j, p| {
        if p.o && p.name != "randomstring" {
            c.case("out", &[i as i64, j as i64], &[b""]);
        }
    });
    c.space("short texts");
    let b = c.b(3, 5);
    each(true, &mut |i, j, p| {
        if !p.o {
            return;
        }
        let mut f = |w: &[u8]| {
            if decodable(p, j, w) {
                c.case("out", &[i as i64, j as i64], &[w])
            }
        };
        spaces::words(b"ab", 0, b, &mut f);
        spaces::words(b"abc", 3, 3, &mut f);
        specials(p.zero, &mut f);
    });
    c.space("texts around buffer sizes");
    let l: Vec<usize> = c.b(vec![1023, 1025, 4097, 8191, 8193, 65537], vec![1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769, 65537]);
    each(true, &mut |i, j, p| {
        if p.o {
            long_texts(p.max, &l, &mut |w| {
                if decodable(p, j, w) {
                    c.case("out", &[i as i64, j as i64], &[w])
                }
            })
        }
    });
    c.space("texts of more than a million bytes");
    let l: Vec<usize> = c.b(vec![MILLION], vec![MILLION - 1, MILLION, 1_500_003]);
    each(true, &mut |i, j, p| {
        if p.o {
            huge_texts(p, j, &l, &mut |w| c.case("out", &[i as i64, j as i64], &[w]))
        }
    });
}
fn j30(env: &mut Env, c: &Case) -> R {
    let (p, j) = pj(c);
    let text = &c.words[0];
    let job = Job::new(env, p, j, text, CH_STDIN)?;
    let r = job.run(env, &[])?;
    if !r.ok() {
        // e.g. the empty text for programs that need a text: nothing is delivered on either channel
        return Ok(());
    }
    let f = env.file("out");
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    // these write the factors to the file and their record to standard output
    let record = ["lyndonfactorization", "count_z", "count_lexparse"].contains(&p.name);
    let mut fjob = job.clone();
    fjob.args.extend([if text.len() % 2 == 0 { "-o" } else { "--outfilename" }.to_string(), f.clone()]);
    let _ = std::fs::remove_file(&f);
    let want = if record {
        fjob.run(env, &[])?;
        std::fs::read(&f).unwrap_or_default()
    } else {
        r.stdout.clone()
    };
    let file_ok = |job: &Job, o: &Out, s: &[Script], before: &str| -> R {
        let got = std::fs::read(&f).ok();
        let what = format!("{}{} ({})", job.text(), show_script(s, &o.trace), before);
        ensure!(o.ok(), "{}: {}", what, o.describe());
        match got {
            None => return bad(format!("{}: no output file; expected {}", what, show(&want))),
            Some(g) => ensure!(g == want, "{}: file holds {} instead of {}", what, show(&g), show(&want)),
        }
        if record {
            ensure!(same(&o.stdout, &r.stdout), "{}: record {} instead of {}", what, show(&o.stdout), show(&r.stdout));
        } else {
            ensure!(o.stdout.is_empty(), "{}: also writes {} to standard output", what, show(&o.stdout));
        }
        Ok(())
    };
    // previous states of the output file
    let olds: Vec<Option<Vec<u8>>> = vec![
        None,
        Some(vec![]),
        Some(b"x".to_vec()),
        Some(want.clone()),
        Some([&want[..], b"#"].concat()),
        Some(vec![b'#'; want.len() + 70000]),
    ];
    for old in olds {
        match &old {
            None => {
                let _ = std::fs::remove_file(&f);
            }
            Some(b) => std::fs::write(&f, b).map_err(infra)?,
        }
        let o = fjob.run(env, &[])?;
        file_ok(&fjob, &o, &[], &format!("previous content: {:?} bytes", old.map(|b| b.len())))?;
    }
    let depth = match text.len() {
        100_000.. => 0,
        1001.. => 1,
        _ if env.thorough => 3,
        _ => 2,
    };
    std::fs::write(&f, vec![b'#'; want.len() + 3]).map_err(infra)?;
    schedules(env, &fjob, depth, false, true, &mut |_, job, o, s| {
        file_ok(job, o, s, "schedule of writes")?;
        std::fs::write(&f, vec![b'#'; want.len() + 3]).map_err(infra)
    })?;
    schedules(env, &job, depth, false, true, &mut |_, job, o, s| compare(job, s, o, &r, "undisturbed"))?;
    for m in [1u32, 2, 3, 7, 1023, 4095] {
        if m as usize <= want.len() && (m > 3 || want.len() < 20000) && (m > 1023 || want.len() < 1 << 20) {
            let mut k = fjob.clone();
            k.max_write = m;
            let o = k.run(env, &[])?;
            file_ok(&k, &o, &[], "short writes")?;
            let mut k = job.clone();
            k.max_write = m;
            let o = k.run(env, &[])?;
            compare(&k, &[], &o, &r, "undisturbed")?;
        }
    }
    env.seen(&(p.name, &want));
    Ok(())
}

// ---------------------------------------------------------------- C31
// nums: program, option form, input channel, output (0 standard output, 1 file)
fn x31(c: &mut Ctx) {
    c.space("wrong names and devices");
    for r in [true, false] {
        each(r, &mut |i, j, _| c.case("names", &[i as i64, j as i64], &[b"ab"]));
    }
    c.space("generators");
    each(false, &mut |i, j, p| {
        for out in 0..=p.o as i64 {
            c.case("fault", &[i as i64, j as i64, 0, out], &[b""]);
        }
    });
    c.space("short texts");
    let thorough = c.thorough;
    each(true, &mut |i, j, p| {
        let mut f = |w: &[u8]| {
            if decodable(p, j, w) {
                for ch in [CH_STDIN, CH_FILE, CH_FIFO] {
                    for out in 0..=p.o as i64 {
                        c.case("fault", &[i as i64, j as i64, ch, out], &[w]);
                    }
                }
            }
        };
        for w in [&b""[..], b"a", b"ab", b"aab\nab", b"abracadabra\n"] {
            f(w);
        }
        if thorough {
            spaces::words(b"ab", 1, 4, &mut f);
            specials(p.zero, &mut f);
        }
    });
    c.space("with a prefix option");
    each(true, &mut |i, j, p| {
        if p.p && !(p.name == "escape" && j == 2) {
            for (w, ps) in [(&b"a"[..], &[1, 2][..]), (b"abracad\n", &[1, 7, 8, 9, 5000])] {
                for &q in ps {
                    for (ch, out) in [(CH_STDIN, 0), (CH_FILE, p.o as i64), (CH_FIFO, 0)] {
                        c.case("fault", &[i as i64, j as i64, ch, out, q], &[w]);
                    }
                }
            }
            for n in [300usize, 8193] {
                if n <= p.max {
                    let w = spaces::family(10, n);
                    for q in [255, n as i64, n as i64 + 1] {
                        for (ch, out) in [(CH_STDIN, 0), (CH_FILE, p.o as i64)] {
                            c.case("fault", &[i as i64, j as i64, ch, out, q], &[&w]);
                        }
                    }
                }
            }
        }
    });
    c.space("texts around buffer sizes");
    let l: Vec<usize> = c.b(vec![1025, 8193], vec![1023, 1025, 4097, 8191, 8192, 8193, 16385, 65537]);
    each(true, &mut |i, j, p| {
        long_texts(p.max, &l, &mut |w| {
            if decodable(p, j, w) {
                for (ch, out) in [(CH_STDIN, 0), (CH_FILE, p.o as i64), (CH_FIFO, 0)] {
                    c.case("fault", &[i as i64, j as i64, ch, out], &[w]);
                }
            }
        })
    });
    c.space("texts longer than a pipe holds");
    each(true, &mut |i, j, p| {
        if p.max >= 65537 {
            let w = spaces::family(10, 65537);
            if decodable(p, j, &w) {
                let n = c.b(1, 3);
                for (ch, out) in [(CH_FILE, p.o as i64), (CH_STDIN, 0), (CH_FIFO, p.o as i64)].into_iter().take(n) {
                    c.case("fault", &[i as i64, j as i64, ch, out], &[&w]);
                }
            }
        }
    });
    c.space("texts of more than a million bytes");
    each(true, &mut |i, j, p| {
        huge_texts(p, j, &[MILLION], &mut |w| {
            c.case("fault", &[i as i64, j as i64, CH_FILE, p.o as i64], &[w]);
            if c.thorough {
                c.case("fault", &[i as i64, j as i64, CH_STDIN, 0], &[w]);
            }
        })
    });
}
fn must_fail(job: &Job, s: &[Script], o: &Out) -> R {
    ensure!(
        o.exit != Exit::Code(0),
        "{}{}: ends with status 0, although its input or output failed; {}",
        job.text(),
        show_script(s, &o.trace),
        o.describe()
    );
    Ok(())
}
/// `enumerate_lexparse` does not end within reason; its first failing write must end it
pub(super) fn endless(p: &P) -> bool {
    p.name == "enumerate_lexparse"
}
fn j31(env: &mut Env, c: &Case) -> R {
    let (p, j) = pj(c);
    let text = &c.words[0];
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    let f = env.file("out");
    if c.kind == "names" {
        if endless(p) {
            for so in [Stdout::Full, Stdout::BrokenPipe] {
                let mut job = Job::new(env, p, j, text, CH_STDIN)?;
                job.stdout = so;
                let o = job.run(env, &[])?;
                must_fail(&job, &[], &o)?;
            }
            return Ok(());
        }
        let base = Job::new(env, p, j, text, CH_STDIN)?;
        let r = base.run(env, &[])?;
        let plain = env.file("plain");
        std::fs::write(&plain, b"text").map_err(infra)?;
        let dir = env.file("dir");
        std::fs::create_dir_all(&dir).map_err(infra)?;
        let missing = env.file("no/such/file");
        let below = format!("{}/x", plain);
        if r.ok() && !r.stdout.is_empty() {
            for so in [Stdout::Full, Stdout::BrokenPipe] {
                let mut job = base.clone();
                job.stdout = so;
                let o = job.run(env, &[])?;
                must_fail(&job, &[], &o)?;
            }
        }
        if p.reads {
            for name in [&missing[..], &env.file("missing"), &dir, &below, ""] {
                let mut job = base.clone();
                job.args.push(format!("--infilename={}", name));
                let o = job.run(env, &[])?;
                must_fail(&job, &[], &o)?;
                ensure!(!o.hung(), "{}: does not end: {}", job.text(), o.describe());
            }
            let mut job = base.clone();
            job.stdin = Stdin::Directory;
            let o = job.run(env, &[])?;
            must_fail(&job, &[], &o)?;
        }
        if p.o && r.ok() {
            for name in [&missing[..], &dir, &below, ""] {
                let mut job = base.clone();
                job.args.push(format!("--outfilename={}", name));
                let o = job.run(env, &[])?;
                must_fail(&job, &[], &o)?;
            }
            let mut job = base.clone();
            job.args.push("--outfilename=/dev/full".into());
            let o = job.run(env, &[])?;
            if !r.stdout.is_empty() {
                must_fail(&job, &[], &o)?;
            }
        }
        return Ok(());
    }
    if endless(p) {
        for action in [ACT_EIO, ACT_ENOSPC] {
            let job = Job::new(env, p, j, text, CH_STDIN)?;
            for i in 0..3 {
                let s = [Script { index: i, action, arg: 0 }];
                let o = job.run(env, &s)?;
                must_fail(&job, &s, &o)?;
                ensure!(!o.hung(), "{}{}: goes on after the failed write", job.text(), show_script(&s, &o.trace));
            }
        }
        return Ok(());
    }
    let mut job = Job::new(env, p, j, text, c.num(2))?;
    job.prefix(c.num(4));
    if c.num(3) == 1 {
        job.args.push(format!("--outfilename={}", f));
    }
    let depth = if env.thorough && text.len() < 100 { 2 } else if text.len() > if env.thorough { 100_000 } else { 20_000 } { 0 } else { 1 };
    let mut points = 0usize;
    let mut fail_all = |env: &mut Env, job: &Job, o: &Out, s: &[Script]| -> R {
        let n = o.trace.len();
        let from = s.last().map(|e| e.index as usize + 1).unwrap_or(0);
        for i in from..n {
            if !selected(i, n) {
                continue;
            }
            let acts: &[(u32, bool)] = match o.trace[i].op {
                OP_READ => &[(ACT_EIO, false)],
                OP_WRITE => &[(ACT_EIO, false), (ACT_ENOSPC, false), (ACT_ENOSPC, true)],
                _ => &[(ACT_EACCES, false), (ACT_EIO, false)],
            };
            for &(action, sticky) in acts {
                // after a deviation the kind of failure does not matter
                if !s.is_empty() && (sticky || action == ACT_ENOSPC) {
                    continue;
                }
                let mut t = s.to_vec();
                t.push(Script { index: i as u32, action, arg: 0 });
                let mut k = job.clone();
                k.sticky = sticky;
                let q = k.run(env, &t)?;
                if q.trace.get(i).map_or(true, |x| x.action as u32 != action) {
                    return Err(Fail::Infra(format!("{}: the execution does not reach call {} again; {} calls; {}; before {} calls, {}", k.text(), i, q.trace.len(), q.describe(), n, o.describe())));
                }
                must_fail(&k, &t, &q)?;
                points += 1;
            }
        }
        Ok(())
    };
    let r = job.run(env, &[])?;
    if !r.ok() {
        // an input outside the program's domain: already reported as failure
        return Ok(());
    }
    if p.name == "generator_kmer" {
        fail_all(env, &job, &r, &[])?;
    } else {
        schedules(env, &job, depth, true, true, &mut fail_all)?;
        if text.len() < 1000 {
            let mut k = job.clone();
            (k.max_read, k.max_write) = (1, 1);
            let o = k.run(env, &[])?;
            fail_all(env, &k, &o, &[])?;
        }
    }
    env.note = Some(format!("{} calls in the undisturbed execution, {} failing executions", r.trace.len(), points));
    env.seen(&(p.name, c.num(1), r.trace.len(), points));
    Ok(())
}

// ---------------------------------------------------------------- C34
// nums: program, option form (index into forms()), prefix, channel/name
fn forms(name: &str) -> Vec<Vec<String>> {
    match name {
        "count_r" => BWTO.iter().map(|o| opts(o)).collect(),
        "entropy" => (0..=2).map(|k| opts(&["-o", &k.to_string()])).collect(),
        "entropy_kmer" => (1..=7).map(|k| opts(&["-o", &k.to_string()])).collect(),
        _ => vec![vec![]],
    }
}
fn x34(c: &mut Ctx) {
    let forms: Vec<(i64, i64)> = ANALYTIC.iter().enumerate().flat_map(|(i, n)| (0..forms(n).len()).map(move |j| (i as i64, j as i64))).collect();
    c.space("short texts, all prefix lengths and names");
    let (b, t, s) = c.b((6, 4, 3), (9, 6, 5));
    for &(i, j) in &forms {
        let mut f = |w: &[u8]| {
            for p in 0..=w.len() as i64 + 1 {
                c.case("rec", &[i, j, p, p % 2], &[w]);
                if w.len() <= 4 {
                    c.case("rec", &[i, j, p, 1 - p % 2], &[w]);
                }
            }
            for ch in 1..=7 {
                c.case("rec", &[i, j, 0, ch], &[w]);
            }
        };
        spaces::words(b"ab", 1, b, &mut f);
        spaces::words(b"abc", 1, t, &mut f);
        for a in [&b"\x01\xff"[..], b"\n ", b"=\x80"] {
            spaces::words(a, 1, s, &mut f);
        }
    }
    c.space("clocks");
    for &(i, j) in &forms {
        for w in [&b"a"[..], b"abracadabra"] {
            for ms in [0, 1, 3, 700, 1000, 12345, 60_000, 3_600_000, 5_000_000_000] {
                c.case("rec", &[i, j, 0, 0, ms + 1], &[w]);
            }
        }
    }
    c.space("families");
    let (dense, max) = c.b((140, 65538), (160, 131074));
    for &(i, j) in &forms {
        let m = if ANALYTIC[i as usize] == "mus" { 8194 } else { max };
        spaces::long(dense, m, &mut |w| {
            if w.len() <= dense || w.len() % 3 == 0 {
                c.case("rec", &[i, j, 0, (w.len() % 2) as i64], &[w]);
            }
        });
    }
}
fn j34(env: &mut Env, c: &Case) -> R {
    let prog = ANALYTIC[c.num(0) as usize];
    let mut args = forms(prog)[c.num(1) as usize].clone();
    let text = &c.words[0];
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    let n = if c.num(2) == 0 { text.len() } else { text.len().min(c.num(2) as usize) };
    if c.num(2) != 0 {
        args.extend(["-p".to_string(), c.num(2).to_string()]);
    }
    let odd = env.file("RESULT=x.y-z,ü");
    let abs = env.file("in");
    let rel = "../in".to_string(); // programs run in a directory below the one with the files
    let none = env.file("none");
    let (name, stdin): (Option<&str>, Stdin) = match c.num(3) {
        0 => (None, Stdin::File),
        1 => (Some(&abs), Stdin::File),
        2 => (Some("/dev/stdin"), Stdin::Pipe),
        3 => (Some(&odd), Stdin::File),
        4 => (Some(&rel), Stdin::File),
        5 => (Some(&none), Stdin::File),
        6 => (None, Stdin::Pipe),
        _ => (Some("/dev/stdin"), Stdin::File),
    };
    let mut input = &text[..];
    if let Some(f) = name {
        if f != "/dev/stdin" {
            std::fs::write(if f == rel { &abs } else { f }, text).map_err(infra)?;
            input = b"";
        }
        args.extend([if n % 2 == 0 { "-i" } else { "--infilename" }.to_string(), f.to_string()]);
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut r = Req::new(&a, input);
    r.stdin = stdin;
    // the clock advances by this many milliseconds at each look
    let clock = c.nums.get(4).map(|x| (x - 1) as u64);
    if let Some(ms) = clock {
        r.clock_step = ms * 1_000_000;
    }
    let o = env.run(prog, &r)?;
    let what = format!("{} {} on {}", prog, args.join(" "), show(text));
    expect_ok(&what, &o)?;
    let s = match std::str::from_utf8(&o.stdout) {
        Ok(s) => s,
        Err(_) => return bad(format!("{}: not a text: {}", what, o.describe())),
    };
    let recs: Vec<&str> = s.split_inclusive('\n').filter(|l| l.starts_with("RESULT")).collect();
    ensure!(recs.len() == 1, "{}: {} lines starting with RESULT: {}", what, recs.len(), o.describe());
    ensure!(recs[0].ends_with('\n'), "{}: unterminated record: {}", what, o.describe());
    ensure!(recs[0].starts_with("RESULT "), "{}: RESULT is not a word: {}", what, o.describe());
    let m = match result_fields(&o) {
        Ok(m) => m,
        Err(Fail::Bad(e)) => return bad(format!("{}: {}", what, e)),
        Err(e) => return Err(e),
    };
    for k in m.keys() {
        ensure!(!k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'), "{}: key {:?}: {}", what, k, recs[0]);
    }
    let is = |k: &str, v: &str| -> R {
        ensure!(m.get(k).map(|x| x.as_str()) == Some(v), "{}: field {} is {:?}, expected {:?}: {}", what, k, m.get(k), v, recs[0].trim_end());
        Ok(())
    };
    let t = m.get("time_ms").cloned().unwrap_or_default();
    ensure!(!t.is_empty() && (t.len() < 8 || clock.is_some()) && t.chars().all(|c| c.is_ascii_digit()), "{}: time_ms is {:?}: {}", what, t, recs[0].trim_end());
    if let Some(ms) = clock {
        // between two looks at the clock lie at least one and at most a few more
        let t: u64 = field(&m, "time_ms")?;
        ensure!(
            if ms == 0 { t == 0 } else { t % ms == 0 && (1..=1000).contains(&(t / ms)) },
            "{}: time_ms is {} although the clock advances by {} ms at each look: {}",
            what,
            t,
            ms,
            recs[0].trim_end()
        );
    }
    let dollar = match prog {
        "count_r" => !args.iter().any(|a| a == "-n"),
        "entropy" | "entropy_kmer" => true,
        _ => false,
    };
    is("length", &(n + dollar as usize).to_string())?;
    is(if prog.starts_with("entropy") { "input" } else { "file" }, name.unwrap_or("none"))?;
    let number = |k: &str| -> R {
        let v = m.get(k).cloned().unwrap_or_default();
        ensure!(!v.is_empty() && v.chars().all(|c| c.is_ascii_digit()), "{}: field {} is {:?}: {}", what, k, v, recs[0].trim_end());
        Ok(())
    };
    match prog {
        "count_r" => {
            is("algo", "bwt")?;
            is("no_dollar", if dollar { "false" } else { "true" })?;
            is("use_matrix", if args.iter().any(|a| a == "-u") { "true" } else { "false" })?;
            number("bwt_runs")?;
        }
        "count_sigma" => {
            is("algo", "count_sigma")?;
            number("sigma")?;
        }
        "count_z" => {
            is("algo", "lz77")?;
            number("factors")?;
        }
        "count_lexparse" => {
            is("algo", "lexparse")?;
            number("factors")?;
        }
        "lyndonfactorization" => {
            is("algo", "duval")?;
            number("factors")?;
        }
        "entropy" | "entropy_kmer" => {
            is("algo", if prog == "entropy" { "count_entropy" } else { "count_entropy_hash" })?;
            is("order", &args[1])?;
            let v: f64 = field(&m, "entropy")?;
            ensure!(v.is_finite(), "{}: entropy {}", what, v);
        }
        _ => {
            let v = m.get("mus").cloned().unwrap_or_default();
            ensure!(v.starts_with('[') && v.ends_with(']'), "{}: mus is {:?}", what, v);
        }
    }
    env.seen(&(prog, recs[0].replace(&format!("time_ms={}", t), "")));
    Ok(())
}

// ---------------------------------------------------------------- C35
fn x35(c: &mut Ctx) {
    c.space("generators");
    each(false, &mut |i, j, p| {
        if !["randomstring", "enumerate_lexparse"].contains(&p.name) {
            for out in 0..=p.o as i64 {
                c.case("same", &[i as i64, j as i64, out], &[b""]);
            }
        }
    });
    c.space("endless programs");
    each(false, &mut |i, j, p| {
        if endless(p) {
            for lines in c.b(vec![40], vec![40, 200]) {
                c.case("endless", &[i as i64, j as i64, lines], &[b""]);
            }
        }
    });
    c.space("short texts");
    let (b, t) = c.b((3, 3), (5, 4));
    each(true, &mut |i, j, p| {
        let mut f = |w: &[u8]| {
            for out in 0..=p.o as i64 {
                c.case("same", &[i as i64, j as i64, out], &[w]);
            }
        };
        spaces::words(b"ab", 0, b, &mut f);
        spaces::words(b"abc", 1, t, &mut f);
        specials(true, &mut f);
    });
    c.space("long texts");
    let l: Vec<usize> = c.b(vec![257, 1000], vec![257, 1000, 4097]);
    each(true, &mut |i, j, p| {
        let max = if p.name == "mus" { 1000 } else { p.max };
        long_texts(max, &l, &mut |w| c.case("same", &[i as i64, j as i64, p.o as i64], &[w]));
    });
    c.space("longer texts, entropy values and repetitions only");
    let l: Vec<usize> = c.b(vec![4097, 20000, 65537], vec![4097, 8193, 20000, 32769, 65537, 131073]);
    each(true, &mut |i, j, p| {
        let mut f = |w: &[u8]| c.case("same", &[i as i64, j as i64, p.o as i64, 1], &[w]);
        long_texts(p.max, &l, &mut f);
        for &n in &l {
            if n <= p.max {
                f(&spaces::family(11, n));
            }
        }
    });
}
const LOGS: &[Option<&str>] = &[
    None,
    Some(""),
    Some("off"),
    Some("error"),
    Some("warn"),
    Some("info"),
    Some("debug"),
    Some("trace"),
    Some("stringology=trace"),
    Some("==,/,x=y=z"),
];
/// programs that never end: what they say up to a number of lines
fn j35_endless(env: &mut Env, c: &Case) -> R {
    let (p, j) = pj(c);
    let a: Vec<&str> = p.opts[j].to_vec();
    let lines = c.num(2) as usize;
    let mut first: Option<String> = None;
    for l in LOGS {
        for entropy in [1, 2, 77] {
            let mut q = Req::new(&a, b"");
            q.horizon = lines as u64;
            q.cpu = 40;
            q.entropy = entropy;
            if let Some(l) = l {
                q.env.push(format!("RUST_LOG={}", l));
            }
            let o = env.run(p.name, &q)?;
            // a program that collects lines before it writes them gets further
            let s: String = String::from_utf8_lossy(&o.stdout).split_inclusive('\n').take(lines).collect();
            let w = first.get_or_insert_with(|| s.clone());
            if let Some((x, y)) = s.lines().zip(w.lines()).find(|(x, y)| x != y) {
                return bad(format!("{} [RUST_LOG {:?}, entropy {}]: line {:?} instead of {:?}", p.name, l, entropy, x, y));
            }
            ensure!(s.len() == w.len(), "{} [RUST_LOG {:?}, entropy {}]: {} bytes instead of {}; {}", p.name, l, entropy, s.len(), w.len(), o.describe());
        }
    }
    env.seen(&(p.name, &first));
    Ok(())
}
fn j35(env: &mut Env, c: &Case) -> R {
    if c.kind == "endless" {
        return j35_endless(env, c);
    }
    let (p, j) = pj(c);
    let text = &c.words[0];
    let f = env.file("out");
    let mut job = Job::new(env, p, j, text, if c.num(2) == 1 { CH_FILE } else { CH_STDIN })?;
    if c.num(2) == 1 {
        job.args.push(format!("--outfilename={}", f));
    }
    let read = || if c.num(2) == 1 { std::fs::read(&f).ok() } else { None };
    let _ = std::fs::remove_file(&f);
    let r = job.run(env, &[])?;
    let want = read();
    let seeds: &[u64] = if env.thorough { &[1, 2, 3, 4, 5] } else { &[1, 77] };
    let mut check = |env: &mut Env, job: &Job| -> R {
        let _ = std::fs::remove_file(&f);
        let o = job.run(env, &[])?;
        let got = read();
        compare(job, &[], &o, &r, "without logging and with the first hash seed")?;
        if r.ok() {
            ensure!(got == want, "{}: the output file differs: {:?}", job.text(), got.map(|g| show(&g)));
        } else {
            ensure!(same(&o.stdout, &r.stdout), "{}: different partial output {}", job.text(), o.describe());
        }
        Ok(())
    };
    let light = c.nums.get(3) == Some(&1);
    if light {
        for s in [2, 3, 77, 1 << 40] {
            let mut k = job.clone();
            k.entropy = s;
            check(env, &k)?;
        }
    }
    for l in if light { &LOGS[1..4] } else { LOGS } {
        for &s in seeds {
            let mut k = job.clone();
            k.entropy = s;
            if let Some(l) = l {
                k.envs.push(format!("RUST_LOG={}", l));
            }
            check(env, &k)?;
        }
    }
    for step in [0, 1, 250_000_000, 40_000_000_000_000] {
        let mut k = job.clone();
        k.clock_step = step;
        check(env, &k)?;
    }
    for e in ["RUST_LOG_STYLE=always", "COLUMNS=20", "LANG=de_DE.UTF-8", "TERM=xterm"] {
        let mut k = job.clone();
        k.envs.push(e.to_string());
        check(env, &k)?;
    }
    check(env, &job)?;
    check(env, &job)?;
    env.seen(&(p.name, c.num(1), r.exit, &want));
    Ok(())
}
