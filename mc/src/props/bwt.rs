use super::*;
use crate::ensure;
use crate::util::show;
use stringology::core;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        explore: x01,
        judge: j01,
        progs: &["bwt"],
        what: "inputs and options",
        bounds: "library and program `bwt` (with and without --no-dollar): all zero-free words over {a,b} up to length 14 (thorough 17) in the library and 10 (13) in the program, 3 letters up to 9 (10) and 7 (8), 4 letters up to 7 (8) and 5 (7), 5 and 6 letters shorter, in ASCII and byte-boundary embeddings, all 1-byte words and half of (thorough: all) 2-byte words; with --no-dollar also those ending in 0; 24 parametric families at every length up to 140 (program) / 300 (library) and around all powers of two up to 65538 (thorough 131074); block words x^i y^j x^k; text on stdin and as file, transform on stdout and as file",
        oracle: "naive sort of all rotations (prefix doubling for long texts), permutation and inversion",
        fault: false,
    },
    Prop {
        id: "C02",
        explore: x02,
        judge: j02,
        progs: &["bwt"],
        what: "inputs and options",
        bounds: "library naive and fast matrix BWT on all words (zero bytes included) over {a,b} up to length 15 (18), 3 letters up to 10 (11), 4 letters up to 7 (8) in byte-boundary embeddings, all 2-byte words, powers u^k of all binary words u up to length 7, 24 families at every length up to 300 and around powers of two up to 65538 (131074); program `bwt --use-matrix` with and without dollar on all small words and on the families and block words at every length 1..140 around its switch at 100, and longer ones up to 65538 (131074); naive BWT also on four families with short repetitions at the thresholds up to 65538 (131074)",
        oracle: "sort of all conjugates by definition (cyclic prefix doubling for long texts)",
        fault: false,
    },
    Prop {
        id: "C03",
        explore: x03,
        judge: j03,
        progs: &["count_r", "bwt"],
        what: "inputs and options",
        bounds: "all four combinations of --use-matrix/--no-dollar on all words over 2,3,4 letters up to length 9,6,5 (12,8,6), zero bytes included where admissible, all 1-byte words, families at every length up to 130 and around powers of two up to 65538 (131074), block words",
        oracle: "number of runs of the reference transform, and of the transform the real `bwt` outputs with the same options",
        fault: false,
    },
    Prop {
        id: "C04",
        explore: x04,
        judge: j04,
        progs: &[],
        what: "inputs and options",
        bounds: "library bijective BWT on all words over 2,3,4 letters up to length 17,10,8 (19,12,9), byte embeddings and wide integer symbols, all words of two bytes, families at every length up to 130 (200) and thresholds up to 258 (1026), four families with short repetitions, also turned into one and two Lyndon words, at the thresholds up to 65538 (131074) and at 100001 and 200003; for injectivity the complete sets {0..s-1}^n for s=2 n<=16 (19), s=3 n<=9 (11), s=4 n<=7 (8)",
        oracle: "all conjugates of all factors of the definition-based Lyndon factorization sorted by infinite repetition; distinctness of all images; matrix BWT for Lyndon words",
        fault: false,
    },
    Prop {
        id: "C36",
        explore: x36,
        judge: j36,
        progs: &["bwt", "count_r", "entropy"],
        what: "inputs and options",
        bounds: "every word over {0,a} and {0,a,b} up to length 8 and 5 (10, 7) with a zero byte, every position of a single zero byte in families of every length up to 40 and of length 64, 100, 128; first, second, third, middle and last three positions of every length up to 70 (140) and of lengths around 100, 128, 256, 1000, 4096, 8192, 65536, 70000; all threshold positions of length 257 and 70000, for bwt and count_r with and without --no-dollar, entropy of orders 1,2,3,8; stdin and file input, stdout and file output; a prefix ending before or after the zero",
        oracle: "non-zero exit status, no result on stdout, output file absent, empty or untouched",
        fault: false,
    },
];

fn check_bwt(text0: &[u8], got: &[u8], what: &str) -> R {
    let want = model::bwt_conjugates(text0);
    ensure!(got == want, "{} of {} is {} instead of {}", what, show(text0), show(got), show(&want));
    Ok(())
}

fn x01(c: &mut Ctx) {
    c.space("library: small words");
    let (b, t, q) = c.b((14, 9, 7), (17, 10, 8));
    spaces::small(false, b, t, q, &mut |w| c.case("lib", &[], &[w]));
    c.space("library: all words of two and three bytes");
    spaces::byte_pairs(false, &mut |w| c.case("lib", &[], &[w]));
    spaces::byte_triples(false, c.b(9, 1), &mut |w| c.case("lib", &[], &[w]));
    c.space("program: small words");
    let (b, t, q) = c.b((10, 7, 5), (13, 8, 7));
    for nd in [0, 1] {
        spaces::small(false, b, t, q, &mut |w| c.case("prog", &[nd, 0, 0], &[w]));
        spaces::small(false, 6, 4, 3, &mut |w| c.case("prog", &[nd, 1, 1], &[w]));
    }
    c.space("program: --no-dollar with a zero byte at the end");
    spaces::small(false, 7, 5, 4, &mut |w| {
        let v = [w, b"\0"].concat();
        c.case("prog", &[1, 0, 0], &[&v])
    });
    c.space("program: two-byte words");
    spaces::byte_pairs(false, &mut |w| {
        if (w[0] as usize * 7 + w[1] as usize) % c.b(2, 1) == 0 {
            c.case("prog", &[0, 0, 0], &[w])
        }
    });
    c.space("block words");
    let e: Vec<usize> = c.b(vec![0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129], (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect());
    for (x, y) in [(b'a', b'b'), (b'b', b'a')] {
        spaces::blocks(x, y, &e, &mut |w| c.case("lib", &[], &[w]));
    }
    c.space("library: parametric families");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| c.case("lib", &[], &[w]));
    c.space("program: parametric families");
    spaces::long(c.b(140, 600), c.b(65538, 131074), &mut |w| c.case("prog", &[0, 0, 0], &[w]));
    spaces::long(c.b(140, 300), c.b(16386, 65538), &mut |w| c.case("prog", &[1, 0, 0], &[w]));
    spaces::long(c.b(3, 100), c.b(10002, 65538), &mut |w| c.case("prog", &[0, 1, 1], &[w]));
}
fn prog_bwt(env: &mut Env, matrix: bool, nd: bool, chan: i64, outfile: bool, text: &[u8]) -> Result<Vec<u8>, Fail> {
    let mut o = vec![];
    if matrix {
        o.push("-u".to_string());
    }
    if nd {
        o.push("-n".to_string());
    }
    let f = env.file("out");
    if outfile {
        // leftover content longer than any short result must not survive
        std::fs::write(&f, [b'#'; 64]).map_err(|e| Fail::Infra(e.to_string()))?;
        o.push("-o".into());
        o.push(f.clone());
    }
    let r = run_on(env, "bwt", &o, text, chan)?;
    expect_ok("bwt", &r)?;
    if outfile {
        ensure!(r.stdout.is_empty(), "bwt -o writes to stdout: {}", r.describe());
        return std::fs::read(&f).map_err(|e| Fail::Infra(e.to_string()));
    }
    Ok(r.stdout)
}
fn j01(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if c.kind == "lib" {
        let t0 = [&t[..], b"\0"].concat();
        env.step();
        let got = core::bwt_from_text_by_sa(&t0);
        check_bwt(&t0, &got, "suffix-array BWT")?;
        ensure!(model::invert_bwt(&got) == t0, "the BWT of {} cannot be inverted", show(&t0));
        env.seen(&got);
        if !t.is_empty() {
            env.step();
            let got = core::bwt_from_text_by_sa(t);
            let want = model::bwt_suffixes(t);
            ensure!(got == want, "suffix-array BWT without terminator of {} is {} instead of {}", show(t), show(&got), show(&want));
            env.validated += 1;
        }
        return Ok(());
    }
    let nd = c.num(0) == 1;
    if nd && t.is_empty() {
        return Ok(());
    }
    let got = prog_bwt(env, false, nd, c.num(1), c.num(2) == 1, t)?;
    if nd {
        let want = model::bwt_suffixes(t);
        ensure!(got == want, "bwt --no-dollar of {} is {} instead of {}", show(t), show(&got), show(&want));
    } else {
        let t0 = [&t[..], b"\0"].concat();
        check_bwt(&t0, &got, "bwt")?;
        ensure!(got.len() == t.len() + 1, "length {}", got.len());
        ensure!(model::invert_bwt(&got) == t0, "the BWT of {} cannot be inverted", show(&t0));
    }
    env.seen(&got);
    env.note = Some(show(&got));
    Ok(())
}

fn x02(c: &mut Ctx) {
    c.space("library: small words, zero bytes included");
    let (b, t, q) = c.b((15, 10, 7), (18, 11, 8));
    spaces::small(true, b, t, q, &mut |w| c.case("lib", &[], &[w]));
    spaces::small(false, 10, 6, 5, &mut |w| c.case("lib", &[], &[w]));
    c.space("library: all words of two and three bytes");
    spaces::byte_pairs(true, &mut |w| c.case("lib", &[], &[w]));
    spaces::byte_triples(true, c.b(9, 1), &mut |w| c.case("lib", &[], &[w]));
    c.space("library: powers of all short words");
    for a in [&b"ab"[..], b"\x00\xff"] {
        spaces::words(a, 1, c.b(7, 9), &mut |u| {
            for k in [2usize, 3, 4, 7, 16, 33] {
                c.case("lib", &[], &[&u.repeat(k)]);
                c.case("lib", &[], &[&[&u.repeat(k)[..], &u[..u.len() / 2]].concat()]);
            }
        });
    }
    c.space("program: small words");
    let (b, t, q) = c.b((9, 6, 5), (12, 8, 6));
    for nd in [0, 1] {
        spaces::small(true, b, t, q, &mut |w| c.case("prog", &[nd, 0], &[w]));
        spaces::small(false, 5, 4, 3, &mut |w| c.case("prog", &[nd, 1], &[w]));
    }
    c.space("program: every length around the switch of algorithms");
    for n in 1..c.b(141, 400) {
        for k in 0..spaces::FAMILIES {
            for nd in [0, 1] {
                let mut w = spaces::family(k, n);
                c.case("prog", &[nd, 0], &[&w]);
                // the same with zero bytes inside
                for (i, x) in w.iter_mut().enumerate() {
                    if *x == b'a' && (i / 3 + k) % 2 == 0 {
                        *x = 0;
                    }
                }
                c.case("prog", &[nd, 0], &[&w]);
            }
        }
    }
    c.space("program: powers of short words at 96 to 120 bytes");
    spaces::words(b"ab", 1, c.b(6, 8), &mut |u| {
        for k in 96 / u.len()..=120 / u.len() {
            c.case("prog", &[1, 0], &[&u.repeat(k)]);
            c.case("prog", &[0, 0], &[&u.repeat(k)]);
        }
    });
    c.space("program: long texts");
    spaces::long(1, c.b(65538, 131074), &mut |w| {
        c.case("prog", &[0, 0], &[w]);
        c.case("prog", &[1, 0], &[w]);
    });
    c.space("library: long texts");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| c.case("lib", &[], &[w]));
    c.space("library: long texts whose conjugates differ early, with both algorithms");
    light_long(c);
}
/// long texts that the naive algorithms can sort: short common prefixes of their conjugates
fn light_long(c: &mut Ctx) {
    for n in spaces::thresholds(c.b(65538, 131074)) {
        for k in [9, 10, 11, 14] {
            if n > 258 {
                let mut w = spaces::family(k, n);
                c.case("lib", &[1], &[&w]);
                // a single Lyndon word, two of them
                w[0] = 0;
                c.case("lib", &[1], &[&w]);
                w[n / 5] = 0;
                w[n / 5 + 1] = 0;
                c.case("lib", &[1], &[&w]);
            }
        }
    }
    for n in [100001, 200003] {
        for k in [10, 11] {
            let mut w = spaces::family(k, n);
            c.case("lib", &[1], &[&w]);
            w[0] = 0;
            c.case("lib", &[1], &[&w]);
            w[n - 70000] = 0;
            w[n - 69999] = 0;
            c.case("lib", &[1], &[&w]);
        }
    }
}
fn j02(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if t.is_empty() && (c.kind == "lib" || c.num(0) == 1) {
        return Ok(());
    }
    if c.kind == "lib" {
        let want = model::bwt_conjugates(t);
        env.steps += 1;
        let fast = core::bwt_by_matrix(t);
        ensure!(fast == want, "fast matrix BWT of {} is {} instead of {}", show(t), show(&fast), show(&want));
        if t.len() <= 600 || c.nums.first() == Some(&1) {
            env.steps += 1;
            let slow = core::bwt_by_matrix_naive(t);
            ensure!(slow == want, "naive matrix BWT of {} is {} instead of {}", show(t), show(&slow), show(&want));
            env.validated += 1;
            if t.len() <= 8 {
                let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 7).collect();
                env.steps += 1;
                let slow: Vec<u8> = core::bwt_by_matrix_naive(&wide).iter().map(|x| ((x + 7) / 1_000_003) as u8).collect();
                ensure!(slow == want, "naive matrix BWT over integers differs for {}", show(t));
            }
        }
        env.seen(&want);
        return Ok(());
    }
    let nd = c.num(0) == 1;
    let got = prog_bwt(env, true, nd, c.num(1), false, t)?;
    let t0 = if nd { t.clone() } else { [&t[..], b"\0"].concat() };
    check_bwt(&t0, &got, "bwt --use-matrix")?;
    env.seen(&got);
    env.note = Some(show(&got));
    Ok(())
}

fn x03(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((9, 6, 5), (12, 8, 6));
    for (u, nd) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        spaces::small(u == 1, b, t, q, &mut |w| c.case("prog", &[u, nd, 0], &[w]));
        spaces::small(false, 5, 4, 3, &mut |w| c.case("prog", &[u, nd, 1], &[w]));
    }
    c.space("--no-dollar with zero at the end");
    spaces::small(false, 6, 4, 3, &mut |w| {
        let v = [w, b"\0"].concat();
        c.case("prog", &[0, 1, 0], &[&v])
    });
    c.space("families");
    for (u, nd) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        spaces::long(c.b(130, 300), c.b(65538, 131074), &mut |w| c.case("prog", &[u, nd, 0], &[w]));
    }
    c.space("block words");
    let e: Vec<usize> = c.b(vec![0, 1, 2, 3, 50, 97, 98, 99, 255, 256], vec![0, 1, 2, 3, 4, 33, 49, 50, 51, 97, 98, 99, 100, 127, 128, 129, 255, 256, 257]);
    for (u, nd) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        spaces::blocks(b'a', b'b', &e, &mut |w| c.case("prog", &[u, nd, 0], &[w]));
        spaces::blocks(0xff, 1, &e, &mut |w| c.case("prog", &[u, nd, 0], &[w]));
    }
}
fn j03(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let (u, nd) = (c.num(0) == 1, c.num(1) == 1);
    if nd && t.is_empty() {
        return Ok(());
    }
    let mut o = vec![];
    if u {
        o.push("--use-matrix".to_string());
    }
    if nd {
        o.push("--no-dollar".to_string());
    }
    let r = run_on(env, "count_r", &o, t, c.num(2))?;
    expect_ok("count_r", &r)?;
    let m = result_fields(&r)?;
    let t0 = if nd { t.clone() } else { [&t[..], b"\0"].concat() };
    let tr = if u || !nd { model::bwt_conjugates(&t0) } else { model::bwt_suffixes(&t0) };
    let want = model::runs(&tr);
    let got: usize = field(&m, "bwt_runs")?;
    ensure!(got == want, "count_r {:?} of {} reports {} runs instead of {} of {}", o, show(t), got, want, show(&tr));
    let len: usize = field(&m, "length")?;
    ensure!(len == tr.len(), "count_r {:?} of {} reports length {} instead of {}", o, show(t), len, tr.len());
    ensure!(m.get("no_dollar").map(|s| s.as_str()) == Some(if nd { "true" } else { "false" }), "no_dollar field {:?}", m.get("no_dollar"));
    ensure!(m.get("use_matrix").map(|s| s.as_str()) == Some(if u { "true" } else { "false" }), "use_matrix field {:?}", m.get("use_matrix"));
    env.seen(&(want, tr.len(), u, nd));
    if t.len() % 4 == 1 {
        let b = prog_bwt(env, u, nd, 0, false, t)?;
        ensure!(model::runs(&b) == got && b.len() == len, "count_r {:?} disagrees with bwt for {}: {} runs", o, show(t), model::runs(&b));
        env.validated += 1;
    }
    env.note = Some(format!("runs={}", got));
    Ok(())
}

fn x04(c: &mut Ctx) {
    c.space("complete sets {0..s-1}^n for injectivity");
    for n in 1..=c.b(16, 19) {
        c.case("inject", &[2, n], &[]);
    }
    for n in 1..=c.b(9, 11) {
        c.case("inject", &[3, n], &[]);
    }
    for n in 1..=c.b(7, 8) {
        c.case("inject", &[4, n], &[]);
    }
    c.space("small words");
    let (b, t, q) = c.b((17, 10, 8), (19, 12, 9));
    spaces::small(true, b, t, q, &mut |w| c.case("lib", &[], &[w]));
    c.space("all words of two and three bytes");
    spaces::byte_pairs(true, &mut |w| c.case("lib", &[], &[w]));
    spaces::byte_triples(true, c.b(9, 1), &mut |w| c.case("lib", &[], &[w]));
    c.space("powers and concatenations");
    spaces::words(b"ab", 1, c.b(6, 8), &mut |u| {
        for k in [2usize, 3, 5, 8] {
            c.case("lib", &[], &[&u.repeat(k)]);
            c.case("lib", &[], &[&[&u.repeat(k)[..], b"a"].concat()]);
            c.case("lib", &[], &[&[b"b", &u.repeat(k)[..]].concat()]);
        }
    });
    c.space("families");
    spaces::long(c.b(130, 200), c.b(258, 1026), &mut |w| c.case("lib", &[], &[w]));
    light_long(c);
}
fn j04(env: &mut Env, c: &Case) -> R {
    if c.kind == "inject" {
        let (s, n) = (c.num(0) as u8, c.num(1) as usize);
        let alpha: Vec<u8> = (0..s).collect();
        let mut images = std::collections::HashMap::new();
        let mut err = None;
        let mut steps = 0;
        spaces::words(&alpha, n, n, &mut |w| {
            if err.is_none() {
                steps += 1;
                let b = core::bbwt_naive(w);
                if let Some(o) = images.insert(b.clone(), w.to_vec()) {
                    err = Some(format!("{:?} and {:?} both have the bijective BWT {:?}", o, w, b));
                }
            }
        });
        env.steps += steps;
        if let Some(e) = err {
            return bad(e);
        }
        env.seen(&(s, n));
        env.note = Some(format!("{} distinct images", images.len()));
        return Ok(());
    }
    let t = &c.words[0];
    if t.is_empty() {
        return Ok(());
    }
    env.step();
    let got = core::bbwt_naive(t);
    let ends = model::lyndon(t);
    let want = model::bbwt_with(t, &ends);
    ensure!(got == want, "bijective BWT of {} is {} instead of {}", show(t), show(&got), show(&want));
    let (mut a, mut b) = (got.clone(), t.clone());
    a.sort();
    b.sort();
    ensure!(a == b, "not a permutation");
    if ends.len() == 1 {
        env.step();
        let m = core::bwt_by_matrix(t);
        ensure!(got == m, "Lyndon word {}: bijective BWT {} differs from matrix BWT {}", show(t), show(&got), show(&m));
    }
    if t.len() <= 9 {
        let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 7).collect();
        env.step();
        let g: Vec<u8> = core::bbwt_naive(&wide).iter().map(|x| ((x + 7) / 1_000_003) as u8).collect();
        ensure!(g == want, "bijective BWT over integers differs for {}", show(t));
    }
    env.seen(&got);
    env.note = Some(show(&got));
    Ok(())
}

fn x36(c: &mut Ctx) {
    let progs = 6; // bwt, bwt -n, count_r, count_r -n, entropy
    let mut all = |c: &mut Ctx, w: &[u8], chans: &[i64]| {
        for p in 0..progs {
            for &ch in chans {
                c.case("zero", &[p, ch, 0], &[w]);
            }
        }
    };
    c.space("all words over {0,a} and {0,a,b} with a zero byte");
    let (m, n) = c.b((8, 5), (10, 7));
    spaces::words(b"\0a", 1, m, &mut |w| {
        if w.contains(&0) {
            all(c, w, &[0]);
            if w.len() <= 4 {
                all(c, w, &[1]);
            }
        }
    });
    spaces::words(b"\0ab", 1, n, &mut |w| {
        if w.contains(&0) {
            all(c, w, &[0])
        }
    });
    spaces::words(b"\0\xff", 1, 5, &mut |w| {
        if w.contains(&0) {
            all(c, w, &[0])
        }
    });
    c.space("a single zero byte at every position");
    for n in 1..=c.b(70, 140) {
        for k in [3usize, 7] {
            let t = spaces::family(k, n);
            for i in 0..n {
                if n <= 40 || [64, 100, 128, 130].contains(&n) || i <= 2 || i + 3 >= n || i == n / 2 {
                    let mut w = t.clone();
                    w[i] = 0;
                    all(c, &w, &[0]);
                }
            }
        }
    }
    c.space("a single zero byte in long texts");
    for n in [99usize, 100, 101, 128, 129, 255, 256, 257, 1000, 4096, 4097, 8192, 8193, 65536, 65537, 70000] {
        let mut at = vec![0, 1, n / 2, n - 2, n - 1];
        if n == 257 || n == 70000 {
            at.extend(spaces::thresholds(n - 1));
        }
        for i in at {
            let mut w = spaces::family(7, n);
            w[i] = 0;
            all(c, &w, &[0, 1]);
        }
    }
    c.space("prefix option and the position of the zero");
    for n in 1..=8usize {
        for z in 0..n {
            for p in 1..=n {
                let mut w = spaces::family(6, n);
                w[z] = 0;
                for q in 0..progs {
                    c.case("zero", &[q, 0, p as i64], &[&w]);
                }
            }
        }
    }
}
fn j36(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let p = c.num(2) as usize;
    let eff = if p > 0 { &t[..p.min(t.len())] } else { &t[..] };
    let (prog, extra, nd): (&str, &[&str], bool) = match c.num(0) {
        0 => ("bwt", &[], false),
        1 => ("bwt", &["-n"], true),
        2 => ("count_r", &[], false),
        3 => ("count_r", &["-n"], true),
        4 => ("entropy", &["-o", "1"], false),
        _ => ("entropy", &["-o", "3"], false),
    };
    let critical = if nd { &eff[..eff.len().saturating_sub(1)] } else { eff };
    let must_refuse = critical.contains(&0);
    let mut o = opts(extra);
    if p > 0 {
        o.push("-p".into());
        o.push(p.to_string());
    }
    for file in [false, true] {
        if file && prog != "bwt" {
            continue;
        }
        let f = env.file("out36");
        let _ = std::fs::remove_file(&f);
        let mut o = o.clone();
        if file {
            o.push("-o".into());
            o.push(f.clone());
        }
        let r = run_on(env, prog, &o, t, c.num(1))?;
        if must_refuse {
            ensure!(!r.ok(), "{} {:?} accepts {} with a zero byte: {}", prog, o, show(t), r.describe());
            ensure!(r.stdout.is_empty(), "{} {:?} fails on {} but writes a result: {}", prog, o, show(t), r.describe());
            if let Ok(b) = std::fs::read(&f) {
                ensure!(b.is_empty(), "{} {:?} fails on {} but leaves a result in the output file: {}", prog, o, show(t), show(&b));
            }
        } else {
            // the boundary: texts whose only zero is admissible (or cut off) are accepted
            ensure!(r.ok(), "{} {:?} refuses {}: {}", prog, o, show(t), r.describe());
        }
        env.seen(&(prog, must_refuse, r.exit));
        env.note = Some(format!("{} {:?} -> {:?}", prog, o, r.exit));
    }
    Ok(())
}
