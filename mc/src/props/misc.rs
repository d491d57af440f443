use super::*;
use crate::ensure;
use crate::util::show;
use std::collections::BTreeSet;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C16",
        explore: x16,
        judge: j16,
        progs: &["is_stringattractor"],
        what: "texts and position sets",
        bounds: "all zero-free words over 2,3,4 letters up to length 6,4,3 (8,6,5) with every subset of their positions (the empty one and those with the terminator's position for the shorter words included), two more byte embeddings shorter; all singletons, complements of singletons and pairs of positions of all binary words of length 7,8 (9,10) and of the families at lengths up to 20 (40), every position just beyond the terminated text and far beyond it; the ends of the LZ77 factors, with and without one of them, on families at thresholds up to 65538 (131074); unsorted and repeated positions; files and prefix lengths; binary texts up to 70000 whose end, middle or beginning is not covered",
        oracle: "all distinct substrings and all their occurrences by definition",
        fault: false,
    },
    Prop {
        id: "C17",
        explore: x17,
        judge: j17,
        progs: &["count_sigma"],
        what: "texts and prefix lengths",
        bounds: "all words over 2,3,4 letters up to length 9,6,5 (12,8,6), all 1-byte words and half of (thorough: all) 2-byte words, all byte sets {0..k}, {k..255}, all-but-one-byte sets in several orders and multiplicities, all prefix lengths 0..n+1 of words up to length 6 and around 255,256,257 of the full-alphabet words, families at thresholds up to 65538",
        oracle: "number of distinct bytes of the prefix",
        fault: false,
    },
    Prop {
        id: "C18",
        explore: x18,
        judge: j18,
        progs: &["count_runs"],
        what: "texts",
        bounds: "library (whole and byte-wise readers) and program on all words, the empty one included, over 2,3,4 letters up to length 11,7,6 (14,9,8) in byte-boundary embeddings, all 1-byte and half of (thorough: all) 2-byte words, block words with exponents around 64,128,255..257,512, families at every length up to 140 and around powers of two up to 131074",
        oracle: "number of positions that differ from their predecessor, plus one",
        fault: false,
    },
    Prop {
        id: "C19",
        explore: x19,
        judge: j19,
        progs: &["rle"],
        what: "texts and modes",
        bounds: "three modes on all words over {'0',a}, {'0','1',NUL}, {a,b} and 4 letters (with parentheses, commas and digits) up to length 9,6,6,5 (12,8,8,6), all 1-byte and half of (thorough: all) 2-byte words, every run length 1..1030 (2100) of '0' and of other bytes at the start, middle and end of the text, block words with exponents 0,1,2,255..258,511..514, families up to 65538 (131074); stdin and file input, stdout and file output",
        oracle: "decoders written from the formats and the minimal number of pairs",
        fault: false,
    },
    Prop {
        id: "C20",
        explore: x20,
        judge: j20,
        progs: &["mtf"],
        what: "texts",
        bounds: "all words over 2,3,4 letters up to length 10,7,6 (13,9,8) in byte-boundary embeddings, all 1-byte and half of (thorough: all) 2-byte words, x y x words for byte pairs, the ascending, descending and strided enumerations of all 256 bytes and their concatenations, families at every length up to 140 and around powers of two up to 65538 (131074); stdin and file input, stdout and file output",
        oracle: "move-to-front list of all 256 bytes, and its inverse",
        fault: false,
    },
    Prop {
        id: "C21",
        explore: x21,
        judge: j21,
        progs: &["escape", "count_r"],
        what: "option choices and texts",
        bounds: "every escape byte and every pair of from- and to-lists of length 0..2 over a 4-byte (thorough 5-byte) set with NUL, comma code, 254, 255, in comma and repeated-option form, each on a word containing all pairs of the set and another byte, and on the empty text; lists of length 3 and 4 without repetition (every order); lists of every length up to 127, also with one clash at the first, middle and last positions; all words over 4 letters up to length 4 (6) for selected choices; single lists for every from byte, every to byte and every escape byte; long families up to 65538; the README pipeline escape | count_r on all words over {0,254,255,a} up to length 4 (6)",
        oracle: "escape map and its inverse from the definition; the rule for choices that must be refused; the reference number of BWT runs",
        fault: false,
    },
    Prop {
        id: "C22",
        explore: x22,
        judge: j22,
        progs: &["reverse"],
        what: "texts",
        bounds: "all words over 2,3,4 letters up to length 10,7,6 (13,9,8) in byte-boundary embeddings, the empty word, all 1-byte and half of (thorough: all) 2-byte words, families at every length up to 200 and around powers of two up to 1048577; stdin and file input, stdout and file output",
        oracle: "the reversed byte sequence",
        fault: false,
    },
];

// ---------------------------------------------------------------- C16
fn subsets(c: &mut Ctx, w: &[u8], upto: usize) {
    for m in 0..(1u32 << upto) {
        let pos: Vec<i64> = (0..upto as i64).filter(|i| m >> i & 1 == 1).collect();
        attr(c, w, &pos, 0);
    }
}
/// nums: channel, prefix, positions...
fn attr(c: &mut Ctx, w: &[u8], pos: &[i64], chan: i64) {
    let mut v = vec![chan, 0];
    v.extend(pos);
    c.case("attr", &v, &[w]);
}
fn x16(c: &mut Ctx) {
    c.space("all subsets of positions");
    let (b, t, q) = c.b((6, 4, 3), (8, 6, 5));
    spaces::words(b"ab", 1, b, &mut |w| subsets(c, w, w.len()));
    spaces::words(b"abc", 1, t, &mut |w| subsets(c, w, w.len()));
    spaces::words(b"abcd", 1, q, &mut |w| subsets(c, w, w.len()));
    for a in [&b"\x01\xff"[..], b"\x7f\x80", b"\n'"] {
        spaces::words(a, 1, c.b(4, 6), &mut |w| subsets(c, w, w.len()));
    }
    c.space("with the position of the terminator");
    spaces::words(b"ab", 1, c.b(4, 6), &mut |w| subsets(c, w, w.len() + 1));
    c.space("longer words: all singletons, complements and pairs");
    let mut some = |c: &mut Ctx, w: &[u8]| {
        let n = w.len() as i64;
        let all: Vec<i64> = (0..n).collect();
        attr(c, w, &all, 0);
        let rev: Vec<i64> = (0..n).rev().chain([0]).collect();
        attr(c, w, &rev, 1);
        for i in 0..n {
            attr(c, w, &[i], 0);
            let co: Vec<i64> = (0..n).filter(|&j| j != i).collect();
            attr(c, w, &co, 0);
            let pre: Vec<i64> = (0..=i).collect();
            attr(c, w, &pre, 0);
            let suf: Vec<i64> = (i..n).collect();
            attr(c, w, &suf, 0);
            for j in 0..i {
                attr(c, w, &[i, j], 0);
            }
        }
        for x in [n + 1, n + 2, 2 * n + 63, 64, 1 << 31, (1i64 << 32), (1i64 << 32) + 1, i64::MAX, -1] {
            attr(c, w, &[x], 0);
            attr(c, w, &[0, x], 0);
        }
    };
    spaces::words(b"ab", c.b(7, 9), c.b(7, 10), &mut |w| some(c, w));
    for n in 1..=c.b(20, 40) {
        for k in 0..spaces::FAMILIES {
            let w = spaces::family(k, n);
            if !w.contains(&0) && (n <= 12 || c.thorough || n % 4 == 0) {
                some(c, &w);
            }
        }
    }
    c.space("known attractors of longer words");
    for n in [63usize, 64, 65, 100, 127, 128, 129, 200] {
        for k in 0..spaces::FAMILIES {
            let w = spaces::family(k, n);
            // the run boundaries of the BWT form an attractor; a prefix of them usually does not
            let s = model::sa(&w);
            let mut pos: Vec<i64> = vec![];
            for r in 0..n {
                let l = |r: usize| w[(s[r] + n - 1) % n];
                if r == 0 || l(r) != l(r - 1) || r + 1 == n || l(r) != l(r + 1) {
                    pos.push(((s[r] + n - 1) % n) as i64);
                }
            }
            pos.sort();
            pos.dedup();
            if pos.len() < 120 {
                attr(c, &w, &pos, 0);
                for i in 0..pos.len().min(6) {
                    let mut p = pos.clone();
                    p.remove(i * pos.len() / pos.len().min(6));
                    attr(c, &w, &p, 0);
                }
            }
        }
    }
    c.space("long texts with an uncovered part at the end, the middle or the beginning");
    for n in [300usize, 1000, 4200, 33000, 66000, 70000] {
        let w = spaces::family(9, n);
        for (from, to) in [(n * 99 / 100, n), (n / 2, n / 2 + n / 100), (0, n / 100), (0, 0)] {
            let pos: Vec<i64> = (0..n).filter(|&i| i % 12 == 5 && !(from..to).contains(&i)).map(|i| i as i64).chain([n as i64 - 1]).collect();
            attr(c, &w, &pos, 0);
        }
    }
    c.space("long texts: the ends of the LZ77 factors, and without one of them");
    for n in spaces::thresholds(c.b(65538, 131074)) {
        let w = spaces::family(2, n);
        attr(c, &w, &[n as i64 - 1], 0);
        attr(c, &w, &[n as i64 - 1, 1], 0);
        attr(c, &w, &[n as i64 - 1, 0], 0);
        for k in 0..spaces::FAMILIES {
            let w = spaces::family(k, n);
            if w.contains(&0) || ![63, 64, 65].contains(&(n % 100)) && n > 300 && !c.thorough && k % 4 != n % 4 {
                continue;
            }
            let f = model::lz77(&w);
            let pos: Vec<i64> = f.iter().map(|&(i, l)| (i + l.max(1)) as i64 - 1).collect();
            if pos.len() > 1500 {
                continue;
            }
            attr(c, &w, &pos, 0);
            if n <= 600 {
                for i in 0..pos.len().min(4) {
                    let mut p = pos.clone();
                    p.remove(i * pos.len() / pos.len().min(4));
                    attr(c, &w, &p, 0);
                }
                let mut p = pos.clone();
                p.pop();
                attr(c, &w, &p, 0);
            }
        }
    }
}
fn j16(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let pos: Vec<u64> = c.nums[2..].iter().map(|&x| x as u64).collect();
    let n = t.len() as u64;
    let mut o = vec![];
    if !pos.is_empty() {
        o.push("-a".to_string());
        o.extend(pos.iter().map(|p| p.to_string()));
    }
    let r = run_on(env, "is_stringattractor", &o, t, c.num(0))?;
    let out = String::from_utf8_lossy(&r.stdout).to_string();
    let what = || format!("is_stringattractor {} of {}", crate::util::list(&pos), show(t));
    if pos.iter().any(|&p| p > n) {
        ensure!(r.exit == Exit::Code(1), "{}: a position beyond the text gives {}", what(), r.describe());
        ensure!(!out.contains("valid attractor"), "{}: a position beyond the text gives a verdict: {}", what(), r.describe());
        env.seen(&(1u8, pos.len()));
        return Ok(());
    }
    let marks: BTreeSet<usize> = pos.iter().map(|&p| p as usize).collect();
    let long = t.len() > 320;
    let unc = if long { Default::default() } else { model::uncovered(t, &marks) };
    let valid = if long { model::is_attractor(t, &marks) } else { unc.is_empty() };
    ensure!(
        r.exit == Exit::Code(if valid { 0 } else { 2 }),
        "{}: {} but {}",
        what(),
        if valid { "every substring is covered".to_string() } else { format!("{} substrings are not covered", unc.len()) },
        r.describe()
    );
    let says_not = out.contains("not a valid attractor");
    let says = out.replace("not a valid attractor", "").contains("valid attractor");
    ensure!(says == valid && says_not == !valid, "{}: wrong message {}", what(), r.describe());
    // the substrings printed as uncovered
    let t0 = [&t[..], b"\0"].concat();
    let unc0: std::collections::HashSet<String> = if long {
        Default::default()
    } else {
        model::uncovered(&t0, &marks).iter().map(|s| String::from_utf8_lossy(s).to_string()).collect()
    };
    let uncovered = |s: &str| {
        if !long {
            return unc0.contains(s);
        }
        let s = s.as_bytes();
        !s.is_ascii() || t0.windows(s.len()).enumerate().all(|(i, w)| w != s || marks.range(i..i + s.len()).next().is_none())
    };
    let mut rest = &out[..];
    let mut printed = 0;
    while let Some(p) = rest.find("substring '") {
        let s = &rest[p + "substring '".len()..];
        let e = match s.find("' not covered!") {
            Some(e) => e,
            None => return bad(format!("{}: malformed line in {}", what(), r.describe())),
        };
        ensure!(long && printed > 20 || uncovered(&s[..e]), "{}: prints the covered substring {:?}", what(), &s[..e]);
        printed += 1;
        rest = &s[e..];
    }
    ensure!(printed == 0 || !valid, "{}: valid, but prints uncovered substrings {}", what(), r.describe());
    env.seen(&(valid, unc.len(), printed));
    env.note = Some(format!("positions {}: {} uncovered", crate::util::list(&pos), unc.len()));
    Ok(())
}

// ---------------------------------------------------------------- C17
fn some_pairs(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    c.space("two-byte words");
    spaces::byte_pairs(true, &mut |w| {
        if (w[0] as usize * 7 + w[1] as usize) % c.b(2, 1) == 0 || spaces::related(w[0], w[1]) {
            f(c, w)
        }
    });
}
fn strided(s: usize) -> Vec<u8> {
    (0..256usize).map(|i| (i * s % 256) as u8).collect()
}
fn x17(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((9, 6, 5), (12, 8, 6));
    spaces::small(true, b, t, q, &mut |w| c.case("t", &[0, 0], &[w]));
    some_pairs(c, &mut |c, w| c.case("t", &[0, 0], &[w]));
    c.space("prefix lengths");
    spaces::words(b"abc", 0, c.b(5, 6), &mut |w| {
        for p in 1..=w.len() as i64 + 1 {
            c.case("t", &[0, p], &[w]);
            c.case("t", &[1, p], &[w]);
        }
    });
    c.space("large alphabets");
    for s in [1, 255, 3, 85, 127] {
        let w = strided(s);
        for k in 0..=256 {
            c.case("t", &[0, 0], &[&w[..k]]);
            c.case("t", &[0, 0], &[&w[k..]]);
        }
        let w3 = w.repeat(3);
        for p in [1, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 768, 769] {
            c.case("t", &[0, p], &[&w3]);
            c.case("t", &[1, p], &[&w3]);
        }
        c.case("t", &[0, 0], &[&w3]);
        for m in 0..=255u8 {
            if s == 1 || s == 255 {
                let v: Vec<u8> = w.iter().cloned().filter(|&x| x != m).collect();
                c.case("t", &[0, 0], &[&v]);
                c.case("t", &[0, 0], &[&v.repeat(2)]);
            }
        }
    }
    c.space("families");
    spaces::long(c.b(140, 300), 131074, &mut |w| c.case("t", &[0, 0], &[w]));
}
fn j17(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let p = c.num(1) as usize;
    let eff = if p > 0 { &t[..p.min(t.len())] } else { &t[..] };
    let o = if p > 0 { opts(&["-p", &p.to_string()]) } else { vec![] };
    let r = run_on(env, "count_sigma", &o, t, c.num(0))?;
    expect_ok("count_sigma", &r)?;
    let m = result_fields(&r)?;
    let s: usize = field(&m, "sigma")?;
    let l: usize = field(&m, "length")?;
    let want = eff.iter().collect::<BTreeSet<_>>().len();
    ensure!(s == want, "count_sigma {:?} of {} is {} instead of {}", o, show(t), s, want);
    ensure!(l == eff.len(), "count_sigma {:?} of {} reports length {} instead of {}", o, show(t), l, eff.len());
    env.seen(&(s, l));
    env.note = Some(format!("sigma={}", s));
    Ok(())
}

// ---------------------------------------------------------------- C18
fn x18(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((11, 7, 6), (14, 9, 8));
    spaces::small(true, b, t, q, &mut |w| c.case("t", &[0], &[w]));
    spaces::small(true, 5, 4, 3, &mut |w| c.case("t", &[1], &[w]));
    some_pairs(c, &mut |c, w| c.case("t", &[0], &[w]));
    c.space("library: all words of two and three bytes");
    spaces::byte_pairs(true, &mut |w| c.case("lib", &[0], &[w]));
    spaces::byte_triples(true, c.b(9, 1), &mut |w| c.case("lib", &[0], &[w]));
    c.space("block words");
    let e = [0usize, 1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 512];
    spaces::blocks(b'a', b'b', &e, &mut |w| c.case("t", &[0], &[w]));
    spaces::blocks(0, 255, &e, &mut |w| c.case("t", &[0], &[w]));
    c.space("families");
    spaces::long(c.b(100, 300), 131074, &mut |w| c.case("t", &[0], &[w]));
}
/// hands out one byte per read
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.0.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
fn j18(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let want = model::runs(t);
    env.steps += 2;
    let a = stringology::core::number_of_runs(&mut &t[..]);
    let b = stringology::core::number_of_runs(&mut Slow(t));
    ensure!(a == want && b == want, "number_of_runs of {} is {} / {} instead of {}", show(t), a, b, want);
    if c.kind == "t" {
        let r = run_on(env, "count_runs", &[], t, c.num(0))?;
        expect_ok("count_runs", &r)?;
        let s = String::from_utf8_lossy(&r.stdout).to_string();
        ensure!(s.trim().parse::<usize>().ok() == Some(want), "count_runs of {} prints {:?} instead of {}", show(t), s, want);
    }
    env.seen(&(want, t.len()));
    env.note = Some(format!("runs={}", want));
    Ok(())
}

// ---------------------------------------------------------------- C19
fn x19(c: &mut Ctx) {
    let mut all = |c: &mut Ctx, w: &[u8]| {
        for m in 0..3 {
            c.case("t", &[m, 0, 0], &[w]);
        }
    };
    c.space("small words");
    let (z, t, b, q) = c.b((9, 6, 6, 5), (12, 8, 8, 6));
    spaces::words(b"0a", 0, z, &mut |w| all(c, w));
    spaces::words(b"01\0", 1, t, &mut |w| all(c, w));
    spaces::words(b"ab", 1, b, &mut |w| all(c, w));
    spaces::words(b"(,)5", 1, q, &mut |w| all(c, w));
    for a in [&b"0\xff"[..], b"\x7f\x80", b"\n0", b"0/"] {
        spaces::words(a, 1, c.b(5, 7), &mut |w| all(c, w));
    }
    for x in 0..=255u8 {
        all(c, &[x]);
        all(c, &[x, b'0']);
        all(c, &[b'0', x]);
        all(c, &[x, x, x]);
    }
    some_pairs(c, &mut |c, w| all(c, w));
    c.space("channels");
    spaces::words(b"0a", 0, 4, &mut |w| {
        for m in 0..3 {
            for (ch, f) in [(1, 0), (0, 1), (1, 1)] {
                c.case("t", &[m, ch, f], &[w]);
            }
        }
    });
    c.space("every run length");
    for n in 1..=c.b(1030usize, 2100) {
        for x in [b'0', b'a', 0u8, 255] {
            if x == b'0' || c.thorough || n <= 20 || (250..=260).contains(&(n % 256 + 256 * (n % 256 < 5) as usize)) || n % 256 > 250 {
                for m in 0..3 {
                    let r = vec![x; n];
                    c.case("t", &[m, 0, 0], &[&r]);
                    c.case("t", &[m, 0, 0], &[&[&b"b"[..], &r, b"1"].concat()]);
                    c.case("t", &[m, 0, 0], &[&[&r[..], b"c"].concat()]);
                    c.case("t", &[m, 0, 0], &[&[&b"d"[..], &r].concat()]);
                }
            }
        }
    }
    c.space("long runs");
    for n in [4095usize, 4097, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000, 100001, 131073, 1000000, 1048577] {
        for x in [b'0', b'a', 0u8, 255] {
            if n < 200000 || x == b'0' || c.thorough {
                let r = vec![x; n];
                all(c, &r);
                all(c, &[&b"b"[..], &r, b"1"].concat());
                all(c, &[&r[..], &[x ^ 1], &r].concat());
            }
        }
    }
    c.space("block words");
    let e = [0usize, 1, 2, 255, 256, 257, 258, 511, 512, 513, 514];
    spaces::blocks(b'0', b'a', &e, &mut |w| all(c, w));
    spaces::blocks(b'a', b'0', &e, &mut |w| all(c, w));
    spaces::blocks(b'0', 0, &[0, 1, 256, 257], &mut |w| all(c, w));
    c.space("families");
    spaces::long(c.b(30, 200), c.b(65538, 131074), &mut |w| {
        all(c, w);
        let v: Vec<u8> = w.iter().map(|&x| if x == b'a' { b'0' } else { x }).collect();
        all(c, &v);
    });
}
fn out_of(env: &mut Env, prog: &str, mut o: Vec<String>, t: &[u8], chan: i64, outfile: bool) -> Result<Vec<u8>, Fail> {
    let f = env.file("out");
    if outfile {
        std::fs::write(&f, [b'#'; 64]).map_err(|e| Fail::Infra(e.to_string()))?;
        o.push("-o".into());
        o.push(f.clone());
    }
    let r = run_on(env, prog, &o, t, chan)?;
    expect_ok(&format!("{} {:?} on {}", prog, o, show(t)), &r)?;
    if outfile {
        return std::fs::read(&f).map_err(|e| Fail::Infra(e.to_string()));
    }
    Ok(r.stdout)
}
fn j19(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let mode = c.num(0);
    let o = match mode {
        0 => vec![],
        1 => opts(&["--onlyzero"]),
        _ => opts(&["--human"]),
    };
    let b = out_of(env, "rle", o.clone(), t, c.num(1), c.num(2) == 1)?;
    let what = format!("rle {:?} of {} gives {}", o, show(t), show(&b));
    let mut d: Vec<u8> = vec![];
    let mut pairs = 0;
    match mode {
        0 => {
            ensure!(b.len() % 2 == 0, "{}: not a list of pairs", what);
            for p in b.chunks(2) {
                d.extend(std::iter::repeat(p[0]).take(p[1] as usize + 1));
                pairs += 1;
            }
            let min = model::run_pieces(t, 256).len();
            ensure!(pairs == min || &d != t, "{}: {} pairs instead of {}", what, pairs, min);
        }
        1 => {
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'0' {
                    ensure!(i + 1 < b.len(), "{}: the last pair is incomplete", what);
                    d.extend(std::iter::repeat(b'0').take(b[i + 1] as usize + 1));
                    pairs += 1;
                    i += 2;
                } else {
                    d.push(b[i]);
                    i += 1;
                }
            }
            let min = model::run_pieces(t, 256).iter().filter(|p| p.0 == b'0').count();
            ensure!(pairs == min || &d != t, "{}: {} pairs instead of {}", what, pairs, min);
        }
        _ => {
            let s = match std::str::from_utf8(&b) {
                Ok(s) => s,
                Err(_) => return bad(format!("{}: not UTF-8", what)),
            };
            let mut it = s.chars().peekable();
            while let Some(x) = it.next() {
                let c = it.next();
                let k = it.next();
                ensure!(x == '(' && k == Some(',') && c.map_or(false, |c| (c as u32) < 256), "{}: malformed", what);
                let mut n = 0usize;
                let mut digits = 0;
                loop {
                    match it.next() {
                        Some(')') if digits > 0 => break,
                        Some(z) if z.is_ascii_digit() && digits < 9 => {
                            n = n * 10 + z as usize - 48;
                            digits += 1;
                        }
                        _ => return bad(format!("{}: malformed count", what)),
                    }
                }
                ensure!(d.len() + n <= t.len(), "{}: decodes to more than the input", what);
                d.extend(std::iter::repeat(c.unwrap() as u32 as u8).take(n));
                pairs += 1;
            }
            let min = model::runs(t);
            ensure!(pairs == min || &d != t, "{}: {} pairs instead of {}", what, pairs, min);
        }
    }
    ensure!(&d == t, "{}, which decodes to {}", what, show(&d));
    env.seen(&(mode, b.clone()));
    env.note = Some(show(&b));
    Ok(())
}

// ---------------------------------------------------------------- C20
fn x20(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((10, 7, 6), (13, 9, 8));
    spaces::small(true, b, t, q, &mut |w| c.case("t", &[0, 0], &[w]));
    some_pairs(c, &mut |c, w| c.case("t", &[0, 0], &[w]));
    c.space("words x y x");
    spaces::byte_triples(true, c.b(51, 5), &mut |w| c.case("t", &[0, 0], &[w]));
    c.space("channels");
    spaces::words(b"a\0\xff", 0, 4, &mut |w| {
        for (ch, f) in [(1, 0), (0, 1), (1, 1)] {
            c.case("t", &[ch, f], &[w]);
        }
    });
    c.space("all 256 bytes in many orders");
    for a in [1usize, 255, 3, 5, 77, 129] {
        for b in [1usize, 255, 3, 5, 77, 129] {
            c.case("t", &[0, 0], &[&[strided(a), strided(b)].concat()]);
            for k in 0..256 {
                if c.thorough || k % 5 == 0 {
                    c.case("t", &[0, 0], &[&[&strided(a)[k..], &strided(b)].concat()]);
                }
            }
        }
    }
    c.space("families");
    spaces::long(c.b(140, 300), 131074, &mut |w| c.case("t", &[0, 0], &[w]));
}
fn j20(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let b = out_of(env, "mtf", vec![], t, c.num(0), c.num(1) == 1)?;
    let want = model::mtf(t);
    ensure!(b == want, "mtf of {} is {} instead of {}", show(t), show(&b), show(&want));
    ensure!(&model::unmtf(&b) == t, "mtf of {} cannot be decoded", show(t));
    env.seen(&b);
    env.note = Some(show(&b));
    Ok(())
}

// ---------------------------------------------------------------- C21
/// all pairs over the set, cyclically (a de Bruijn-like walk)
fn pair_word(s: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    for &a in s {
        for &b in s {
            w.push(a);
            w.push(b);
        }
    }
    w
}
/// nums: form, channel/outfile, escape, |from|, |to|; words: text, from, to
fn esc(c: &mut Ctx, e: u8, f: &[u8], t: &[u8], form: i64, io: i64, text: &[u8]) {
    c.case("esc", &[form, io, e as i64], &[text, f, t]);
}
fn x21(c: &mut Ctx) {
    let set: &[u8] = c.b(&[0, 44, 254, 255], &[0, 44, 92, 254, 255]);
    let mut probe = set.to_vec();
    probe.push(b'a');
    let probe = pair_word(&probe);
    c.space("every escape byte and lists of length 0..2");
    let mut lists: Vec<Vec<u8>> = vec![];
    spaces::words(set, 0, 2, &mut |w| lists.push(w.to_vec()));
    for &e in set {
        for f in &lists {
            for t in &lists {
                esc(c, e, f, t, 0, 0, &probe);
                if f.len() == 2 || t.len() == 2 {
                    esc(c, e, f, t, 1, 0, &probe);
                }
                if f.len() <= 1 && t.len() <= 1 {
                    esc(c, e, f, t, 0, 0, b"");
                }
            }
        }
    }
    // an escape byte outside the set
    for f in &lists {
        for t in &lists {
            if f.len() == t.len() {
                esc(c, 7, f, t, 0, 0, &[&probe[..], b"\x07\x07a\x07"].concat());
            }
        }
    }
    c.space("longer lists");
    let s: &[u8] = &[0, 10, 44, 48, 200, 255];
    let probe2 = pair_word(&[0, 10, 44, 48, 200, 255, 1, 2]);
    let mut perm = |c: &mut Ctx, n: usize| {
        // all ordered selections of n from-bytes and n to-bytes
        spaces::words(s, 2 * n, 2 * n, &mut |w| {
            let d: BTreeSet<u8> = w.iter().cloned().collect();
            if d.len() == 2 * n && (n <= 2 || c.thorough || w[0] < w[1] || w[1] < w[2]) {
                esc(c, 1, &w[..n], &w[n..], 0, 0, &probe2);
                esc(c, 1, &w[..n], &w[n..], 2, 0, &probe2);
            }
        });
    };
    perm(c, 2);
    perm(c, 3);
    esc(c, 1, &[0, 2, 3, 4], &[10, 11, 12, 13], 0, 0, &pair_word(&(0..14).collect::<Vec<u8>>()));
    let many: Vec<u8> = (0..100).collect();
    let tom: Vec<u8> = (100..200).collect();
    esc(c, 255, &many, &tom, 0, 0, &strided(3));
    esc(c, 255, &many, &tom, 1, 0, &strided(1).repeat(3));
    esc(c, 200, &many, &tom[..99], 0, 0, &strided(1));
    c.space("lists of every length, one clash anywhere");
    let all3 = [strided(1), strided(7), strided(255)].concat();
    for m in 1..=127usize {
        let from: Vec<u8> = (0..m).map(|i| (2 * i + 1) as u8).collect();
        let to: Vec<u8> = (0..m).map(|i| 254 - 2 * i as u8).collect();
        esc(c, 0, &from, &to, 0, 0, &all3);
        let back: Vec<u8> = from.iter().rev().cloned().collect();
        esc(c, 0, &back, &to, (m % 2) as i64, 0, &all3);
        esc(c, 0, &to, &back, 0, 0, &all3);
        esc(c, 0, &from, &to[..m - 1], 0, 0, &all3);
        if [2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127].contains(&m) || c.thorough && m % 8 == 3 {
            let at: BTreeSet<usize> = [0, 1, 2, m / 2, 63, 64, m - 2, m - 1].into_iter().filter(|&x| x < m).collect();
            for &i in &at {
                for (l, e) in [(0, 0u8), (1, 0)] {
                    let (mut f, mut t) = (from.clone(), to.clone());
                    if l == 0 { f[i] = e } else { t[i] = e }
                    esc(c, e, &f, &t, 0, 0, &all3);
                }
                for &j in &at {
                    for clash in 0..3 {
                        let (mut f, mut t) = (from.clone(), to.clone());
                        match clash {
                            0 => f[i] = to[j],
                            1 if i != j => t[i] = to[j],
                            2 if i != j => f[i] = from[j],
                            _ => continue,
                        }
                        esc(c, 0, &f, &t, 0, 0, &all3);
                    }
                }
            }
        }
    }
    c.space("every byte in every role");
    let text = [strided(1), strided(7), strided(255)].concat();
    for x in 0..=255u8 {
        for (e, f, t) in [(x, 0, 255), (254, x, 255), (254, 0, x), (x, 1, 2), (1, x, 2), (0, 1, x)] {
            esc(c, e, &[f], &[t], 0, 0, &text);
        }
        esc(c, x, &[], &[], 0, 0, &text);
    }
    c.space("all short texts for selected choices");
    let mut n = 0;
    for (e, f, t) in [(254u8, vec![0u8], vec![255u8]), (b'\\', vec![b'\n', 0], vec![b'n', b'0']), (0, vec![1, 2], vec![3, 4]), (255, vec![], vec![])] {
        let a = [e, f.first().cloned().unwrap_or(1), t.first().cloned().unwrap_or(2), *t.last().unwrap_or(&3)];
        spaces::words(&a, 0, c.b(4, 6), &mut |w| {
            n += 1;
            esc(c, e, &f, &t, 0, n % 4, w);
        });
    }
    c.space("long texts");
    spaces::long(c.b(10, 200), c.b(65538, 131074), &mut |w| {
        esc(c, b'b', b"a", b"c", 0, 0, w);
        esc(c, b'a', b"b\xff", b"c\xfe", 0, 0, w);
    });
    c.space("pipeline escape | count_r");
    spaces::words(&[0, 254, 255, b'a'], 0, c.b(4, 6), &mut |w| c.case("pipe", &[], &[w]));
    for k in 0..spaces::FAMILIES {
        for n in [1usize, 50, 99, 100, 101, 255, 256, 1000] {
            let mut w = spaces::family(k, n);
            for (i, x) in w.iter_mut().enumerate() {
                if i % 3 == 0 {
                    *x = [0, 254, 255][i / 3 % 3];
                }
            }
            c.case("pipe", &[], &[&w]);
        }
    }
}
fn esc_model(e: u8, f: &[u8], t: &[u8], text: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for &x in text {
        if x == e {
            v.extend([e, e]);
        } else if let Some(i) = f.iter().position(|&y| y == x) {
            v.extend([e, t[i]]);
        } else {
            v.push(x);
        }
    }
    v
}
fn j21(env: &mut Env, c: &Case) -> R {
    let text = &c.words[0];
    if c.kind == "pipe" {
        let b = out_of(env, "escape", opts(&["-f", "0", "-t", "255", "-e", "254"]), text, 0, false)?;
        let want = esc_model(254, &[0], &[255], text);
        ensure!(b == want, "escape -f 0 -t 255 -e 254 of {} gives {}", show(text), show(&b));
        let r = run_on(env, "count_r", &[], &b, 2)?;
        expect_ok("escape | count_r", &r)?;
        let runs: usize = field(&result_fields(&r)?, "bwt_runs")?;
        let m = model::runs(&model::bwt_conjugates(&[&want[..], b"\0"].concat()));
        ensure!(runs == m, "escape | count_r of {} reports {} runs instead of {}", show(text), runs, m);
        env.seen(&(runs, b.len()));
        return Ok(());
    }
    let (f, t) = (&c.words[1], &c.words[2]);
    let e = c.num(2) as u8;
    let list = |v: &[u8]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut o: Vec<String> = vec![];
    if e != 0 || c.num(0) == 1 {
        o.extend(opts(&["-e", &e.to_string()]));
    }
    match c.num(0) {
        0 => {
            if !f.is_empty() {
                o.extend(opts(&["-f", &list(f)]));
            }
            if !t.is_empty() {
                o.extend(opts(&["--to-symbols", &list(t)]));
            }
        }
        1 => {
            for x in f {
                o.extend(opts(&["--from-symbols", &x.to_string()]));
            }
            for x in t {
                o.extend(opts(&["-t", &x.to_string()]));
            }
        }
        _ => {
            // mixed: comma list, then one more option
            o.extend(opts(&["-f", &list(&f[..f.len() - 1]), "-f", &f[f.len() - 1].to_string()]));
            o.extend(opts(&["-t", &t[0].to_string(), "-t", &list(&t[1..])]));
        }
    }
    let (chan, outfile) = (c.num(1) & 1, c.num(1) & 2 != 0);
    let dup_to = (0..t.len()).any(|i| (0..i).any(|j| t[i] == t[j] && f.get(i) != f.get(j)));
    let refuse = f.len() != t.len() || f.contains(&e) || t.contains(&e) || f.iter().any(|x| t.contains(x)) || dup_to;
    let dup_from = (0..f.len()).any(|i| (0..i).any(|j| f[i] == f[j]));
    let what = format!("escape {:?} of {}", o, show(text));
    if refuse || dup_from {
        let r = run_on(env, "escape", &o, text, chan)?;
        if refuse {
            ensure!(!r.ok(), "{}: a choice that cannot be reverted is accepted: {}", what, r.describe());
        }
        if !r.ok() {
            ensure!(r.stdout.is_empty(), "{}: refused, but writes {}", what, show(&r.stdout));
            let mut o2 = o.clone();
            o2.push("--is-reversion".into());
            let r = run_on(env, "escape", &o2, text, chan)?;
            ensure!(!r.ok() && r.stdout.is_empty(), "{}: refused, but its reversion is accepted: {}", what, r.describe());
            env.seen(&(e, f.clone(), t.clone()));
            return Ok(());
        }
    }
    let b = out_of(env, "escape", o.clone(), text, chan, outfile)?;
    if !dup_from {
        let want = esc_model(e, f, t, text);
        ensure!(b == want, "{} gives {} instead of {}", what, show(&b), show(&want));
    }
    ensure!(!b.iter().any(|x| f.contains(x)), "{} contains a byte to be escaped: {}", what, show(&b));
    let mut o2 = o.clone();
    o2.push("--is-reversion".into());
    let d = out_of(env, "escape", o2, &b, chan, outfile)?;
    ensure!(&d == text, "{} gives {}, and its reversion {}", what, show(&b), show(&d));
    env.seen(&b);
    env.note = Some(format!("{:?} -> {}", o, show(&b)));
    Ok(())
}

// ---------------------------------------------------------------- C22
fn x22(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((10, 7, 6), (13, 9, 8));
    spaces::small(true, b, t, q, &mut |w| c.case("t", &[0, 0], &[w]));
    some_pairs(c, &mut |c, w| c.case("t", &[0, 0], &[w]));
    c.space("channels");
    spaces::words(b"a\0\xff", 0, 4, &mut |w| {
        for (ch, f) in [(1, 0), (2, 0), (0, 1), (1, 1)] {
            c.case("t", &[ch, f], &[w]);
        }
    });
    c.space("families");
    spaces::long(c.b(200, 400), 131074, &mut |w| c.case("t", &[0, 0], &[w]));
    for k in [5, 7, 9, 10] {
        for n in [(1usize << 20) - 1, 1 << 20, (1 << 20) + 1] {
            c.case("t", &[0, 0], &[&spaces::family(k, n)]);
            c.case("t", &[1, 1], &[&spaces::family(k, n)]);
        }
    }
}
fn j22(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let b = out_of(env, "reverse", vec![], t, c.num(0), c.num(1) == 1)?;
    let mut want = t.clone();
    want.reverse();
    ensure!(b == want, "reverse of {} gives {}", show(t), show(&b));
    env.seen(&b);
    env.note = Some(show(&b));
    Ok(())
}
