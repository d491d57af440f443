//! Debug and release builds of the programs and of the library say the same.
use super::delivery::{decodable, each, TABLE};
use super::*;
use crate::calls;
use crate::ensure;
use crate::server::*;
use crate::util::show;

pub const PROPS: &[Prop] = &[Prop {
    id: "C43",
    explore: x43,
    judge: j43,
    progs: &[
        "bwt", "count_r", "count_z", "count_lexparse", "count_sigma", "count_runs", "entropy", "entropy_kmer", "is_stringattractor",
        "lyndonfactorization", "mus", "mtf", "rle", "reverse", "escape", "word", "lyndonwords", "enumerate", "generator_kmer",
        "enumerate_lexparse", "randomstring", "release-probe",
    ],
    what: "programs x options x texts and programs x extreme arguments, programs x points of failure, library functions x texts and numbers, each in two builds",
    bounds: "builds: dev profile (overflow checks and debug assertions on, optimisation level 1; library level 2) and release profile; 21 programs in 42 option forms on all words over {a,b} up to length 5 (8), over {a,b,c} up to 3 (5), over {a,b,c,d} up to 2 (4), line-end, control, NUL and high-byte words, 24 families at lengths 17, 64, 100, 129, 300, 1025 and 5 at 8193, 65537, two at 1048577 and 1048578 (thorough: at all thresholds up to 20001 and 131073), prefixes 0..n+1 and beyond all memory, output to a file; words of all names with k in 0..12 and 44..255; lyndonwords with alphabets up to 300 and 2^63; orders, positions and other numeric options around every power of two up to 2^64; enumerate for all small and for refused arguments; on three texts every read, write and open call failing, full and closed standard output, missing and unusable files; library: 25 functions on all words over {a,b} up to length 8 (12), {a,b,c} up to 5 (7), {a,b,c,d} up to 4 (5), families at every length up to 80 (300) and around powers of two up to 4097 (65537), 18 functions on all numbers up to 255 and around powers of two",
    oracle: "the debug build: success or failure alike, equal output (numbers with a fraction up to 10^-9, random texts up to their letters), equal results",
    fault: false,
}];

fn x43(c: &mut Ctx) {
    c.space("library: texts");
    let (b, t, q, m) = c.b((8, 5, 4, 80), (12, 7, 5, 300));
    spaces::small(false, b, t, q, &mut |w| c.case("text", &[], &[w]));
    for k in 0..spaces::FAMILIES {
        for n in 1..=m {
            c.case("text", &[], &[&spaces::family(k, n)]);
        }
        for n in spaces::thresholds(c.b(1026, 20002)) {
            c.case("text", &[], &[&spaces::family(k, n)]);
        }
    }
    for k in [5, 10, 11, 15, 20] {
        for n in c.b(vec![4097, 8193], vec![32769, 65537]) {
            c.case("text", &[], &[&spaces::family(k, n)]);
        }
    }
    c.space("library: numbers");
    for k in 0..=255 {
        c.case("number", &[k], &[]);
    }
    for i in 8..63 {
        for d in -3..=3 {
            c.case("number", &[(1i64 << i) + d], &[]);
        }
    }
    c.space("programs: texts");
    let (b, t, q) = c.b((5, 3, 2), (8, 5, 4));
    let c_zero = c.b(4, 7);
    each(true, &mut |i, j, p| {
        let mut f = |w: &[u8], pre: i64, way: i64| {
            if w.len() <= p.max && decodable(p, j, w) && (pre == 0 || p.p) && (way == 0 || p.o) {
                c.case("run", &[i as i64, j as i64, pre, way], &[w]);
            }
        };
        spaces::small(p.zero, b, t, q, &mut |w| {
            f(w, 0, 0);
            if w.len() <= 3 {
                f(w, 0, 1);
                for pre in [1, 2, 3, 4, 256, i64::MAX] {
                    f(w, pre, 0);
                }
            }
        });
        super::delivery::specials(true, &mut |w| f(w, 0, 0));
        // whether or not the program accepts zero bytes
        spaces::words(b"\0a", 1, c_zero, &mut |w| f(w, 0, 0));
        for k in 0..spaces::FAMILIES {
            for n in [17, 64, 100, 129, 300, 1025] {
                f(&spaces::family(k, n), 0, 0);
            }
        }
        for k in [5, 10, 11, 15, 20] {
            for n in [8193, 65537] {
                f(&spaces::family(k, n), 0, (k % 2) as i64);
            }
        }
        f(&spaces::family(10, super::delivery::MILLION + 1), super::delivery::MILLION as i64, p.o as i64);
        f(&spaces::family(5, super::delivery::MILLION), 0, 0);
    });
    if c.thorough {
        each(true, &mut |i, j, p| {
            for k in 0..spaces::FAMILIES {
                for n in spaces::thresholds(20002).into_iter().chain([131073]) {
                    if n <= p.max && (p.max >= 20000 || n <= 2100) {
                        let w = spaces::family(k, n);
                        if decodable(p, j, &w) {
                            c.case("run", &[i as i64, j as i64, 0, 0], &[&w]);
                        }
                    }
                }
            }
        });
    }
    each(false, &mut |i, j, p| {
        for way in 0..=(p.o as i64) {
            c.case("run", &[i as i64, j as i64, 0, way], &[b""]);
        }
    });
    c.space("programs: failing devices and files");
    for reads in [true, false] {
        each(reads, &mut |i, j, p| {
            if p.name == "enumerate_lexparse" {
                return;
            }
            for way in 0..=(p.o as i64) {
                for w in [&b"abracadabra"[..], b"", &spaces::family(10, 8193)] {
                    if w.len() <= p.max.max(11) && (reads || w.is_empty()) && decodable(p, j, w) {
                        for chan in 0..=(reads as i64) {
                            c.case("fault", &[i as i64, j as i64, chan, way], &[w]);
                        }
                    }
                }
            }
        });
    }
    c.space("programs: arguments");
    let mut f = |prog: &str, args: &[String], text: &[u8]| {
        let mut v: Vec<&[u8]> = vec![text, prog.as_bytes()];
        v.extend(args.iter().map(|s| s.as_bytes()));
        c.case("args", &[], &v);
    };
    for name in [
        "fibonacci", "fibonacci-lyndon-factor", "tribonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
        "quaternary-paper-folding", "power2", "vtm", "binary-de-brujin", "nonsense",
    ] {
        for k in (0..=12).chain(44..=257) {
            if name != "binary-de-brujin" || k <= 12 || k >= 256 {
                f("word", &opts(&["-n", name, "-k", &k.to_string()]), b"");
            }
        }
    }
    let ends: Vec<String> = {
        let mut v: Vec<u128> = (0..=20).collect();
        for i in [5, 6, 7, 8, 9, 15, 16, 24, 31, 32, 33, 48, 62, 63, 64] {
            v.extend([(1u128 << i) - 2, (1 << i) - 1, 1 << i, (1 << i) + 1]);
        }
        v.iter().map(|x| x.to_string()).collect()
    };
    for l in 1..=3 {
        for s in (0..=30).chain([90, 97, 98, 157, 158, 159, 160, 161, 162, 200, 254, 255, 256, 257, 258, 300]) {
            if l == 1 || s <= 30 || (l == 2 && s <= 162) {
                f("lyndonwords", &opts(&["-l", &l.to_string(), "-s", &s.to_string()]), b"");
            }
        }
    }
    for s in ["65536", "65537", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615", "18446744073709551616"] {
        f("lyndonwords", &opts(&["-l", "1", "-s", s]), b"");
    }
    for l in [0usize, 8, 12, 13, 63, 64, 65, 127, 128, 255, 256, 257] {
        // one letter has one Lyndon word only
        f("lyndonwords", &opts(&["-l", &l.to_string(), "-s", "1"]), b"");
    }
    for a in 0..=28 {
        for l in 0..=3 {
            if a <= 6 || l <= 2 {
                f("enumerate", &opts(&[&a.to_string(), &l.to_string()]), b"");
            }
        }
    }
    for a in &ends {
        if a.len() >= 3 {
            f("enumerate", &opts(&[a, "1"]), b"");
            f("enumerate", &opts(&[a, "1", "2"]), b"");
        }
        f("enumerate", &opts(&["0", a]), b"");
        f("enumerate", &opts(&["2", "3", if a.len() > 1 { "2" } else { a }]), b"");
        f("enumerate", &opts(&["2", "0", a]), b"");
    }
    let texts: &[&[u8]] = &[b"", b"a", b"ab", b"abracadabra", b"\xff\xfe\xff\xff\xfe", &spaces::family(10, 300)];
    for t in texts {
        for x in &ends {
            f("entropy", &opts(&["-o", x]), t);
            f("entropy_kmer", &opts(&["-o", x]), t);
            f("is_stringattractor", &opts(&["-a", x]), t);
            f("is_stringattractor", &opts(&["-a", "0", x]), t);
            f("escape", &opts(&["-e", x]), t);
            f("escape", &opts(&["-e", x, "-f", "97", "-t", "98"]), t);
            f("escape", &opts(&["-e", "1", "-f", x, "-t", "98"]), t);
            f("escape", &opts(&["-e", "1", "-f", "97", "-t", x]), t);
            for p in TABLE {
                if p.p && p.reads {
                    let mut a = opts(p.opts[0]);
                    a.extend(opts(&["-p", x]));
                    f(p.name, &a, t);
                }
            }
        }
    }
    for t in texts {
        for (e, from, to) in [
            ("0", "97,98", "99"), ("0", "97", "98,99"), ("0", "97,98", "98,99"), ("97", "97", "98"), ("98", "97", "98"), ("0", "97", "97"),
            ("0", "97,98", "99,99"), ("0", "97,97", "98,99"), ("0", "97,97", "98,98"), ("0", "97", "98"), ("99", "97,98", "1,2"),
        ] {
            for r in [false, true] {
                let mut a = opts(&["-e", e, "-f", from, "-t", to]);
                if r {
                    a.push("--is-reversion".into());
                }
                f("escape", &a, t);
            }
        }
        for r in [&["-e", "0", "-f", "97", "-t", "98", "--is-reversion"][..], &["--is-reversion"], &["-e", "97", "--is-reversion"]] {
            f("escape", &opts(r), t);
            f("escape", &opts(r), b"\0\0x\0bab\0");
            f("escape", &opts(r), b"x\0q");
        }
    }
    for x in &ends {
        f("randomstring", &opts(&["-a", x, "-p", "50"]), b"");
        if x.len() <= 5 {
            for a in ["0", "1", "2", "26", "62"] {
                f("randomstring", &opts(&["-a", a, "-p", x]), b"");
            }
        }
    }
}

/// equal up to rounding in numbers with a fraction
fn same(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    let cut = |s: &[u8]| -> Vec<String> {
        String::from_utf8_lossy(s).split([' ', '=', '\n', '\t', ',']).map(|x| x.to_string()).collect()
    };
    let (x, y) = (cut(a), cut(b));
    x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| {
            p == q
                || (p.contains('.')
                    && q.contains('.')
                    && match (p.parse::<f64>(), q.parse::<f64>()) {
                        (Ok(u), Ok(v)) => (u - v).abs() <= 1e-9 * u.abs().max(v.abs()).max(1.0),
                        _ => false,
                    })
        })
}
fn calls_of(env: &mut Env, args: &[&str], text: &[u8]) -> Result<Vec<(String, String)>, Fail> {
    let mut r = Req::new(args, text);
    r.cpu = 60;
    let o = env.run("../release/release-probe", &r)?;
    if !o.ok() {
        return bad(format!("the library calls for {:?} end the process of the release build: {}", args, o.describe()));
    }
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    Ok(s.lines().filter_map(|l| l.split_once(" = ")).map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

fn j43(env: &mut Env, c: &Case) -> R {
    match c.kind.as_str() {
        "text" | "number" => {
            let (here, there, what) = if c.kind == "text" {
                (calls::on_text(&c.words[0]), calls_of(env, &["text"], &c.words[0])?, show(&c.words[0]))
            } else {
                let k = c.num(0);
                (calls::on_number(k as usize), calls_of(env, &["number", &k.to_string()], b"")?, k.to_string())
            };
            if here.len() != there.len() {
                return Err(Fail::Infra(format!("{} and {} calls for {}", here.len(), there.len(), what)));
            }
            for ((n, a), (_, b)) in here.iter().zip(&there) {
                env.step();
                let cut = |s: &str| s.chars().take(150).collect::<String>();
                ensure!(a == b, "{} for {}: {} in the debug build, {} in the release build", n, what, cut(a), cut(b));
                env.seen(&(n, a));
            }
            return Ok(());
        }
        _ => {}
    }
    if c.kind == "fault" {
        return faults(env, c);
    }
    let (prog, args, out, text): (String, Vec<String>, Option<String>, &[u8]);
    if c.kind == "run" {
        let p = &TABLE[c.num(0) as usize];
        prog = p.name.to_string();
        let mut a = opts(p.opts[c.num(1) as usize]);
        if c.num(2) > 0 {
            a.extend(["-p".to_string(), c.num(2).to_string()]);
        }
        out = if c.num(3) > 0 { Some(env.file("out")) } else { None };
        if let Some(f) = &out {
            a.push(format!("--outfilename={}", f));
        }
        args = a;
        text = &c.words[0];
    } else {
        prog = String::from_utf8_lossy(&c.words[1]).to_string();
        args = c.words[2..].iter().map(|w| String::from_utf8_lossy(w).to_string()).collect();
        out = None;
        text = &c.words[0];
    }
    let what = format!("{} {} on {}", prog, args.join(" "), show(text));
    let run = |env: &mut Env, name: &str| -> Result<(Out, Option<Vec<u8>>), Fail> {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let mut r = Req::new(&a, text);
        r.clock_step = 0;
        if prog == "enumerate_lexparse" {
            r.horizon = 4000;
        }
        if let Some(f) = &out {
            let _ = std::fs::remove_file(f);
        }
        let o = env.run(name, &r)?;
        let w = out.as_ref().and_then(|f| std::fs::read(f).ok());
        Ok((o, w))
    };
    let (a, fa) = run(env, &prog)?;
    if a.hung() {
        // no answer to compare with
        return Ok(());
    }
    let (b, fb) = run(env, &format!("../release/{}", prog))?;
    ensure!(!b.hung(), "{}: the release build does not end; debug build: {}", what, a.describe());
    if a.ok() || b.ok() {
        ensure!(
            a.ok() == b.ok(),
            "{}: the {} build succeeds and the other one does not; debug: {}; release: {}",
            what,
            if a.ok() { "debug" } else { "release" },
            a.describe(),
            b.describe()
        );
        // the letters are random; all else is not
        let equal = if prog == "randomstring" { a.stdout.len() == b.stdout.len() } else { same(&a.stdout, &b.stdout) };
        ensure!(equal, "{}: different outputs; debug: {}; release: {}", what, a.describe(), b.describe());
        let equal = if prog == "randomstring" { fa.as_ref().map(|x| x.len()) == fb.as_ref().map(|x| x.len()) } else { fa == fb };
        ensure!(equal, "{}: the output files of the two builds differ; debug: {:?} release: {:?}", what, fa.as_deref().map(show), fb.as_deref().map(show));
    }
    env.seen(&(&prog, a.exit, &a.stdout, &fa));
    Ok(())
}

/// every call of the program fails in both builds, once each
fn faults(env: &mut Env, c: &Case) -> R {
    let p = &TABLE[c.num(0) as usize];
    let text = &c.words[0];
    let mut args = opts(p.opts[c.num(1) as usize]);
    let mut input: &[u8] = text;
    if c.num(2) > 0 {
        let f = env.file("in");
        std::fs::write(&f, text).map_err(|e| Fail::Infra(e.to_string()))?;
        args.extend(["-i".to_string(), f]);
        input = b"";
    }
    if c.num(3) > 0 {
        args.push(format!("--outfilename={}", env.file("out")));
    }
    let release = format!("../release/{}", p.name);
    let run = |env: &mut Env, name: &str, args: &[String], script: &[Script], so: Stdout| -> Result<Out, Fail> {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let mut r = Req::new(&a, input);
        r.clock_step = 0;
        r.script = script.to_vec();
        r.stdout = so;
        r.want_trace = true;
        env.run(name, &r)
    };
    let both = |env: &mut Env, args: &[String], script: &[Script], so: Stdout, how: &str| -> R {
        let a = run(env, p.name, args, script, so)?;
        let b = run(env, &release, args, script, so)?;
        ensure!(
            a.ok() == b.ok(),
            "{} {} on {}, {}: one build succeeds and the other one does not; debug: {}; release: {}",
            p.name,
            args.join(" "),
            show(text),
            how,
            a.describe(),
            b.describe()
        );
        env.seen(&(p.name, how, a.exit));
        Ok(())
    };
    let t = run(env, p.name, &args, &[], Stdout::File)?.trace;
    for (i, x) in t.iter().enumerate() {
        if i >= 12 && i + 4 < t.len() {
            continue;
        }
        let action = if x.op == OP_WRITE { ACT_ENOSPC } else { ACT_EIO };
        both(env, &args, &[Script { index: i as u32, action, arg: 0 }], Stdout::File, &format!("call {} fails", i))?;
    }
    both(env, &args, &[], Stdout::Full, "standard output is full")?;
    both(env, &args, &[], Stdout::BrokenPipe, "standard output is closed")?;
    for (o, f) in [("-i", "absent"), ("-i", "."), ("-o", "/dev/full"), ("-o", "absent/x"), ("-o", ".")] {
        if if o == "-i" { p.reads } else { p.o } {
            let mut a = args.clone();
            a.retain(|x| !x.starts_with("--outfilename"));
            let name = if f.starts_with('/') { f.to_string() } else { env.file(f) };
            a.push(format!("{}={}", if o == "-i" { "--infilename" } else { "--outfilename" }, name));
            both(env, &a, &[], Stdout::File, f)?;
        }
    }
    Ok(())
}
