use super::*;
use crate::ensure;
use crate::util::show;
use stringology::{core, word};

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C23",
        explore: x23,
        judge: jword,
        progs: &["word"],
        what: "generators and orders",
        bounds: "Fibonacci and Fibonacci Lyndon factor orders 0..28/18 (34/18), tribonacci 0..23 (28), Thue-Morse, period-doubling and ternary Thue-Morse 0..21 (26), in the library, through `word` to standard output and with -o over a longer old file; Fibonacci numbers of orders 0..91, tribonacci numbers of orders 0..72, the five public morphism functions iterated up to 12 times, and their agreement with the word lengths; in the library also Fibonacci up to order 40 (44; 1836 million letters), tribonacci 30 (34), Thue-Morse and period-doubling 27 (31, 32)",
        oracle: "literal iteration of the morphism on the start word; for the large orders the recurrence of the words (concatenation of the preceding ones, complement of the first half, ...), which is itself checked against the iterated word and changes of it for orders 0..14; the recurrences over 128-bit integers",
        fault: false,
    },
    Prop {
        id: "C24",
        explore: x24,
        judge: jword,
        progs: &["word"],
        what: "generators and orders",
        bounds: "Kolakoski orders 0..24 (27), paperfolding 0..20 (25), quaternary paperfolding and powers of two 0..21 (26), in the library, through `word` to standard output and with -o over a longer old file; in the library also paperfolding up to order 26 (29), quaternary 26 (30), powers of two 27 (32; 2^32 letters)",
        oracle: "run-length expansion; the parity rule of the regular paperfolding sequence; positions that are powers of two",
        fault: false,
    },
    Prop {
        id: "C25",
        explore: x25,
        judge: jword,
        progs: &["word"],
        what: "orders",
        bounds: "orders 0..20 (23) in the library, through `word` to standard output and with -o over a longer old file",
        oracle: "set of all cyclic blocks of length k+1",
        fault: false,
    },
    Prop {
        id: "C26",
        explore: x26,
        judge: j26,
        progs: &["lyndonwords"],
        what: "maximal lengths and alphabet sizes",
        bounds: "library: s=1 n<=60 (300), s=2 n<=21 (25), s=3 n<=13 (16), s=4 n<=10 (12), s=5 n<=8 (10), s=6 n<=7 (9), s=7 n<=7 (8), s=8 n<=6 (8), s=26 n<=4 (5), s=255,256 n<=2, n=0; the first 1500 (20000) words for every length up to 130 (300) and around 256, 512, 1024 over 2,3,4,5,26,255,256 letters; ten further calls after the end; skipping, stepping, counting and size hints for n<=8 (10); program: s=1..26 with all n <= 18 (24) giving at most 200000 (2*10^6) words, defaults, -o over a longer old file",
        oracle: "all words filtered by the definition for small parameters; otherwise strictly increasing Lyndon words whose number matches the necklace-counting formula",
        fault: false,
    },
    Prop {
        id: "C27",
        explore: x27,
        judge: j27,
        progs: &["enumerate", "generator_kmer"],
        what: "parameters",
        bounds: "every alphabet size 1..26 with every length range (and the one-length form) of at most 70000 (1500000) words and length 16 (20), one letter with lengths up to 65540, the first 1500 (20000) lines over words of 27 lengths up to 1000 for 10 alphabet sizes, the first 30 (300) lines for six lengths up to 70000; every refused parameter combination from {0,1,26,27,28,255,256,257,2^64-1} x {0,1,2,3}; binary strings of every length 0..18 (22), the first 40 strings of lengths up to 63, five further calls after the end, skipping, stepping, counting and size hints for 19 lengths; the complete output of generator_kmer",
        oracle: "nested-counter enumeration; the set of all words",
        fault: false,
    },
    Prop {
        id: "C33",
        explore: x33,
        judge: j33,
        progs: &["enumerate_lexparse"],
        what: "the deterministic run of the program up to a horizon",
        bounds: "the run of the program up to its 505th (thorough: 606th) output line, which is printed after 72414 (269624) words (the enumeration itself has 2^32 steps)",
        oracle: "replay of the enumeration with the reference lex-parse",
        fault: false,
    },
];

// ---------------------------------------------------------------- C23, C24, C25
/// the reference word, by generator number
fn reference(g: i64, k: usize) -> Vec<u8> {
    match g {
        0 => model::iterate(b"a", k, &|c| if c == b'a' { b"ab" } else { b"a" }),
        1 => model::iterate(b"ab", k, &|c| if c == b'a' { b"aab" } else { b"ab" }),
        2 => model::iterate(b"a", k, &|c| match c {
            b'a' => b"ab",
            b'b' => b"ac",
            _ => b"a",
        }),
        3 => model::iterate(b"a", k, &|c| if c == b'a' { b"ab" } else { b"ba" }),
        4 => model::iterate(b"a", k, &|c| if c == b'a' { b"ab" } else { b"aa" }),
        5 => model::iterate(b"a", k, &|c| match c {
            b'a' => b"abc",
            b'b' => b"ac",
            _ => b"b",
        }),
        6 => model::kolakoski(k),
        7 => (1..=2usize << k).map(model::paperfold).collect(),
        8 => (0..1usize << k)
            .map(|i| match (model::paperfold(2 * i + 1), model::paperfold(2 * i + 2)) {
                (b'1', b'1') => b'd',
                (b'0', b'1') => b'b',
                (b'1', b'0') => b'c',
                _ => b'a',
            })
            .collect(),
        _ => (1..=1usize << k).map(|i| if i & (i - 1) == 0 { b'b' } else { b'a' }).collect(),
    }
}
const NAMES: [&str; 11] = [
    "fibonacci",
    "fibonacci-lyndon-factor",
    "tribonacci",
    "thue-morse",
    "period-doubling",
    "vtm",
    "kolakoski",
    "paper-folding",
    "quaternary-paper-folding",
    "power2",
    "binary-de-brujin",
];
const LIB: [fn(u8) -> Vec<u8>; 11] = [
    word::fibonacci_word,
    word::fibonacci_lyndonfactor,
    word::tribonacci_word,
    word::thuemorse_word,
    word::period_doubling_word,
    word::vtm_word,
    word::kolakoski_word,
    word::paperfolding_word,
    word::quaternary_paperfolding_word,
    word::power2_sequence,
    word::binary_debruijn_word,
];
/// the k-th word of a generator; none for de Bruijn words, of which there are many
pub fn word_of(name: &str, k: usize) -> Option<Vec<u8>> {
    let g = NAMES.iter().position(|&n| n == name)?;
    if name == "binary-de-brujin" {
        return None;
    }
    Some(reference(g as i64, k))
}
fn gens(c: &mut Ctx, list: &[(i64, i64)]) {
    for &(g, top) in list {
        c.space(NAMES[g as usize]);
        for k in 0..=top {
            for how in 0..3 {
                c.case("word", &[g, k, how], &[]);
            }
        }
    }
}
fn x23(c: &mut Ctx) {
    c.space("number functions");
    for k in 0..=91 {
        c.case("fib", &[k], &[]);
    }
    for k in 0..=72 {
        c.case("trib", &[k], &[]);
    }
    c.space("morphism functions");
    for g in 0..5 {
        for k in 0..=12 {
            c.case("morph", &[k, g], &[]);
        }
    }
    let l = c.b([(0, 28), (1, 18), (2, 23), (3, 21), (4, 21), (5, 21)], [(0, 34), (1, 18), (2, 28), (3, 26), (4, 26), (5, 26)]);
    gens(c, &l);
    c.space("library: large orders");
    let l = c.b([(0, 29, 40), (2, 24, 30), (3, 22, 27), (4, 22, 27)], [(0, 35, 44), (2, 29, 34), (3, 27, 31), (4, 27, 32)]);
    large(c, &l);
}
fn large(c: &mut Ctx, l: &[(i64, i64, i64)]) {
    for &(g, from, to) in l {
        for k in from..=to {
            c.case("large", &[g, k], &[]);
        }
    }
    for g in 0..10 {
        if [0, 2, 3, 4, 7, 8, 9].contains(&g) && l.iter().any(|x| x.0 == g) {
            for k in 0..=14 {
                c.case("large", &[g, k], &[]);
            }
        }
    }
}
fn x24(c: &mut Ctx) {
    let l = c.b([(6, 24), (7, 20), (8, 21), (9, 21)], [(6, 27), (7, 25), (8, 26), (9, 26)]);
    gens(c, &l);
    c.space("library: large orders");
    let l = c.b([(7, 21, 26), (8, 22, 26), (9, 22, 27)], [(7, 26, 29), (8, 27, 30), (9, 27, 32)]);
    large(c, &l);
}
fn x25(c: &mut Ctx) {
    let l = c.b([(10, 20)], [(10, 23)]);
    gens(c, &l);
}
fn jword(env: &mut Env, c: &Case) -> R {
    let k = c.num(if c.kind == "word" { 1 } else { 0 }) as usize;
    if c.kind == "fib" || c.kind == "trib" {
        // F: 1,2,3,5,... = lengths of the Fibonacci words; T: 1,2,4,7,... of the tribonacci words
        env.step();
        let (got, want, name): (u128, u128, &str) = if c.kind == "fib" {
            let (mut a, mut b) = (1u128, 2u128);
            for _ in 0..k {
                (a, b) = (b, a + b);
            }
            (word::fibonacci_number(k as u8) as u128, a, "fibonacci_number")
        } else {
            let (mut x, mut y, mut z) = (1u128, 2u128, 4u128);
            for _ in 0..k {
                (x, y, z) = (y, z, x + y + z);
            }
            (word::tribonacci_number(k as u8) as u128, x, "tribonacci_number")
        };
        ensure!(got == want, "{}({}) is {} instead of {}", name, k, got, want);
        if k <= 16 {
            let l = reference(if c.kind == "fib" { 0 } else { 2 }, k).len();
            ensure!(l as u128 == want, "reference numbers {} {}", l, want);
        }
        env.seen(&got);
        return Ok(());
    }
    if c.kind == "morph" {
        // iterating the published morphism itself
        type M = fn(u8) -> &'static [u8];
        let (k, i) = (c.num(0) as usize, c.num(1) as usize);
        let (m, start, g, n): (M, &[u8], i64, &str) = [
            (word::fibonacci_morphism as M, &b"a"[..], 0, "fibonacci_morphism"),
            (word::fibonacci_lyndonfactor_morphism as M, b"ab", 1, "fibonacci_lyndonfactor_morphism"),
            (word::tribonacci_morphism as M, b"a", 2, "tribonacci_morphism"),
            (word::thuemorse_morphism as M, b"a", 3, "thuemorse_morphism"),
            (word::vtm_morphism as M, b"a", 5, "vtm_morphism"),
        ][i];
        let mut w = start.to_vec();
        for _ in 0..k {
            env.step();
            w = w.iter().flat_map(|&x| m(x).to_vec()).collect();
            ensure!(w.len() < 1 << 24, "{} grows too fast", n);
        }
        ensure!(w == reference(g, k), "iterating {} {} times gives {}", n, k, show(&w));
        env.seen(&w);
        return Ok(());
    }
    if c.kind == "large" {
        return jlarge(env, c);
    }
    let (g, how) = (c.num(0), c.num(2));
    let name = NAMES[g as usize];
    let got = match how {
        0 => {
            env.step();
            LIB[g as usize](k as u8)
        }
        _ => {
            let f = env.file("word");
            let mut o = opts(&["-k", &k.to_string(), "-n", name]);
            if how == 2 {
                std::fs::write(&f, b"old contents of the file, longer than the first words").map_err(|e| Fail::Infra(e.to_string()))?;
                o.extend(opts(&["-o", &f]));
            }
            let r = run_on(env, "word", &o, b"", 0)?;
            expect_ok("word", &r)?;
            if how == 2 {
                ensure!(r.stdout.is_empty(), "word -o writes to stdout");
                std::fs::read(&f).map_err(|e| Fail::Infra(e.to_string()))?
            } else {
                r.stdout
            }
        }
    };
    let via = ["library", "word", "word -o"][how as usize];
    if g == 10 {
        let n = k + 1;
        ensure!(got.len() == 1 << n, "{}: {} of order {} has length {} instead of {}", via, name, k, got.len(), 1u64 << n);
        ensure!(got.iter().all(|&x| x == b'a' || x == b'b'), "{}: {} of order {} has other letters: {}", via, name, k, show(&got));
        let mut seen = vec![false; 1 << n];
        let mask = (1usize << n) - 1;
        let mut x = 0usize;
        for i in 0..got.len() + n - 1 {
            x = (x << 1 | (got[i % got.len()] == b'b') as usize) & mask;
            if i + 1 >= n {
                ensure!(!seen[x], "{}: {} of order {} contains the block {:0w$b} (a=0, b=1) twice: {}", via, name, k, x, show(&got), w = n);
                seen[x] = true;
            }
        }
    } else {
        let want = reference(g, k);
        if got != want {
            let p = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]).unwrap_or(got.len().min(want.len()));
            return bad(format!("{}: {} of order {} (length {}, expected {}) differs at position {}: {}", via, name, k, got.len(), want.len(), p, show(&got)));
        }
    }
    env.seen(&(g, hash64(&got)));
    env.note = Some(format!("{} {}: length {} {}", via, name, got.len(), show(&got[..got.len().min(40)])));
    Ok(())
}

/// words too long to be iterated one by one: recurrences that follow from the morphism, or the rule for each position.
/// For small orders the recurrence itself is compared with the iterated word.
fn jlarge(env: &mut Env, c: &Case) -> R {
    let (g, k) = (c.num(0), c.num(1) as usize);
    let name = NAMES[g as usize];
    env.step();
    let got = LIB[g as usize](k as u8);
    let fault = follows(g, k, &got);
    if k <= 14 {
        // the rule accepts exactly the iterated word
        let w = reference(g, k);
        if let Some(f) = follows(g, k, &w) {
            return Err(Fail::Infra(format!("the rule for {} of order {} rejects the iterated word: {}", name, k, f)));
        }
        for i in [0, w.len() / 2, w.len() - 1] {
            let mut x = w.clone();
            x[i] ^= 1;
            if follows(g, k, &x).is_none() {
                return Err(Fail::Infra(format!("the rule for {} of order {} overlooks a change at position {}", name, k, i)));
            }
        }
    }
    if let Some(f) = fault {
        return bad(format!("library: {} of order {}: {}", name, k, f));
    }
    env.seen(&(g, k, got.len()));
    env.note = Some(format!("{} of order {}: length {} {}", name, k, got.len(), show(&got[..got.len().min(40)])));
    Ok(())
}
fn follows(g: i64, k: usize, w: &[u8]) -> Option<String> {
    let sequence = |first: &[usize]| -> Vec<usize> {
        let mut l = first.to_vec();
        while l.len() <= k {
            l.push(l[l.len() - first.len()..].iter().sum());
        }
        l
    };
    let len = match g {
        0 => sequence(&[1, 2])[k],
        2 => sequence(&[1, 2, 4])[k],
        7 => 2 << k,
        _ => 1 << k,
    };
    if w.len() != len {
        return Some(format!("length {} instead of {}", w.len(), len));
    }
    let start: &[u8] = match g {
        0 => b"ab",
        2 => b"abac",
        3 | 4 => b"a",
        _ => b"",
    };
    let s = start.len().min(w.len());
    if w[..s] != start[..s] {
        return Some(format!("starts with {}", show(&w[..s])));
    }
    match g {
        // the k-th word is the concatenation of the two (three) before it
        0 | 2 => {
            let l = sequence(if g == 0 { &[1, 2] } else { &[1, 2, 4] });
            let p = if g == 0 { 2 } else { 3 };
            for i in p..=k {
                let mut at = l[i - 1];
                for j in 2..=p {
                    if w[at..at + l[i - j]] != w[..l[i - j]] {
                        return Some(format!("positions {}..{} do not repeat the first {}", at, at + l[i - j], l[i - j]));
                    }
                    at += l[i - j];
                }
            }
            None
        }
        // the second half is the complement of the first
        3 => {
            for i in 0..k {
                let (a, b) = w[..2 << i].split_at(1 << i);
                if a.iter().zip(b).any(|(&x, &y)| x ^ y != 3) {
                    return Some(format!("positions {}..{} are not the complement of the first {}", 1 << i, 2 << i, 1 << i));
                }
            }
            None
        }
        // the second half is the first one with another last letter
        4 => {
            for i in 0..k {
                let (a, b) = w[..2 << i].split_at(1 << i);
                let e = a.len() - 1;
                if a[..e] != b[..e] || a[e] ^ b[e] != 3 {
                    return Some(format!("positions {}..{} are not the first {} with another last letter", 1 << i, 2 << i, 1 << i));
                }
            }
            None
        }
        _ => {
            let rule = |i: usize| match g {
                7 => model::paperfold(i),
                8 => match (model::paperfold(2 * i - 1), model::paperfold(2 * i)) {
                    (b'1', b'1') => b'd',
                    (b'0', b'1') => b'b',
                    (b'1', b'0') => b'c',
                    _ => b'a',
                },
                _ if i & (i - 1) == 0 => b'b',
                _ => b'a',
            };
            w.iter().zip(1..).find(|&(&x, i)| x != rule(i)).map(|(_, i)| format!("position {} is wrong", i - 1))
        }
    }
}

// ---------------------------------------------------------------- C26
/// number of Lyndon words of length exactly l over s letters (saturating)
fn lyndon_count(l: u32, s: u128) -> u128 {
    fn mu(mut n: u32) -> i128 {
        let mut m = 1;
        let mut p = 2;
        while p * p <= n {
            if n % p == 0 {
                n /= p;
                if n % p == 0 {
                    return 0;
                }
                m = -m;
            }
            p += 1;
        }
        if n > 1 {
            m = -m;
        }
        m
    }
    let mut t: i128 = 0;
    for d in 1..=l {
        if l % d == 0 {
            t += mu(l / d) * (s.saturating_pow(d).min(1 << 60)) as i128;
        }
    }
    (t / l as i128).max(0) as u128
}
fn lyndon_total(n: i64, s: i64) -> u128 {
    (1..=n as u32).map(|l| lyndon_count(l, s as u128)).sum()
}
fn x26(c: &mut Ctx) {
    c.space("library");
    let tops = c.b(
        [(1, 60), (2, 21), (3, 13), (4, 10), (5, 8), (6, 7), (7, 7), (8, 6), (26, 4), (255, 2), (256, 2)],
        [(1, 300), (2, 25), (3, 16), (4, 12), (5, 10), (6, 9), (7, 8), (8, 8), (26, 5), (255, 2), (256, 2)],
    );
    for (s, top) in tops {
        for n in 0..=top {
            c.case("lib", &[n, s], &[]);
        }
    }
    c.space("library: other ways to walk");
    for n in 0..=c.b(8, 10) {
        for s in [1, 2, 3, 4, 256] {
            c.case("walk", &[n, s], &[]);
        }
    }
    c.space("library: the first words of large lengths");
    for n in (1..=c.b(130, 300)).chain([254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025]) {
        for s in [2, 3, 4, 5, 26, 255, 256] {
            c.case("head", &[n, s, c.b(1500, 20000)], &[]);
        }
    }
    c.space("program");
    for s in 1..=26 {
        for n in 1..=c.b(18, 24) {
            if lyndon_total(n, s) <= c.b(200_000, 2_000_000) {
                for o in 0..2 {
                    c.case("prog", &[n, s, o], &[]);
                }
            }
        }
    }
    c.case("prog", &[5, 2, 2], &[]);
    c.case("prog", &[0, 2, 0], &[]);
}
fn check_lyndon_list(list: &[Vec<u8>], n: i64, s: i64, what: &str) -> R {
    if (s as f64).powi(n as i32) <= 20_000.0 {
        let want = model::lyndon_words(n as usize, s as usize);
        let p = (0..list.len().min(want.len())).find(|&i| list[i] != want[i]).unwrap_or(list.len().min(want.len()));
        ensure!(list == &want[..], "{}: {} words instead of {}, first difference at {}: {:?} instead of {:?}", what, list.len(), want.len(), p, list.get(p), want.get(p));
        return Ok(());
    }
    for (i, w) in list.iter().enumerate() {
        ensure!(!w.is_empty() && w.len() <= n as usize && w.iter().all(|&x| (x as i64) < s), "{}: word {} is {:?}", what, i, w);
        ensure!(model::is_lyndon(w), "{}: word {} is {:?}, not a Lyndon word", what, i, w);
        if i > 0 {
            ensure!(list[i - 1] < *w, "{}: {:?} is not followed by a larger word but by {:?}", what, list[i - 1], w);
        }
    }
    ensure!(list.len() as u128 == lyndon_total(n, s), "{}: {} words instead of {}", what, list.len(), lyndon_total(n, s));
    Ok(())
}
fn j26(env: &mut Env, c: &Case) -> R {
    let (n, s) = (c.num(0), c.num(1));
    if c.kind == "walk" {
        match walks(&|| core::LyndonWordGenerator::new(n as usize, s as usize), 1000) {
            Ok(steps) => env.steps += steps,
            Err(e) => return bad(format!("LyndonWordGenerator({}, {}): {}", n, s, e)),
        }
        env.seen(&(n, s));
        return Ok(());
    }
    if c.kind == "head" {
        let g = core::LyndonWordGenerator::new(n as usize, s as usize);
        let mut want = Some(vec![0u8]);
        for (i, w) in g.take(c.num(2) as usize).enumerate() {
            env.steps += 1;
            ensure!(Some(&w) == want.as_ref(), "LyndonWordGenerator({}, {}): word {} is {:?} instead of {:?}", n, s, i, w, want);
            want = model::next_lyndon(&w, n as usize, s as usize);
        }
        env.seen(&(n, s));
        return Ok(());
    }
    let total = lyndon_total(n, s) as usize;
    let what;
    let list: Vec<Vec<u8>> = if c.kind == "lib" {
        what = format!("LyndonWordGenerator({}, {})", n, s);
        let mut g = core::LyndonWordGenerator::new(n as usize, s as usize);
        let mut v = vec![];
        for w in g.by_ref() {
            v.push(w);
            ensure!(v.len() <= total, "{}: more than {} words, the last one {:?}", what, total, v.last());
        }
        env.steps += v.len() as u64;
        for _ in 0..10 {
            ensure!(g.next().is_none(), "{}: continues after its end", what);
        }
        v
    } else {
        let f = env.file("lw");
        let mut o = match c.num(2) {
            2 => vec![],
            _ => opts(&["-l", &n.to_string(), "-s", &s.to_string()]),
        };
        if c.num(2) == 1 {
            std::fs::write(&f, b"old contents\nold contents\nold contents\n").map_err(|e| Fail::Infra(e.to_string()))?;
            o.extend(opts(&["-o", &f]));
        }
        what = format!("lyndonwords {:?}", o);
        let r = run_on(env, "lyndonwords", &o, b"", 0)?;
        expect_ok(&what, &r)?;
        let out = if c.num(2) == 1 { std::fs::read(&f).map_err(|e| Fail::Infra(e.to_string()))? } else { r.stdout };
        ensure!(out.is_empty() || out.last() == Some(&b'\n'), "{}: the last line is not ended", what);
        let mut v: Vec<Vec<u8>> = out.split(|&x| x == b'\n').map(|l| l.to_vec()).collect();
        v.pop();
        for w in v.iter_mut() {
            for x in w.iter_mut() {
                ensure!(*x >= b'a', "{}: prints {}", what, show(&out));
                *x -= b'a';
            }
        }
        v
    };
    check_lyndon_list(&list, n, s, &what)?;
    env.seen(&list);
    env.note = Some(format!("{}: {} words", what, list.len()));
    Ok(())
}

// ---------------------------------------------------------------- C27
fn x27(c: &mut Ctx) {
    c.space("enumerate");
    let lim: f64 = c.b(7e4, 1.5e6);
    for s in 1..=26i64 {
        for l in 1..=c.b(16i64, 20) {
            if (s as f64).powi(l as i32) > lim {
                break;
            }
            c.case("enum", &[s, l, 0, 0], &[]);
            for m in l..=c.b(16i64, 20) {
                if (s as f64).powi(m as i32) > lim {
                    break;
                }
                c.case("enum", &[s, l, 1, m], &[]);
            }
        }
    }
    c.space("enumerate: one letter, long words");
    for l in [17i64, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 1000, 4096, 65535, 65536, 65537] {
        c.case("enum", &[1, l, 0, 0], &[]);
        c.case("enum", &[1, l, 1, l + 3], &[]);
    }
    c.case("enum", &[1, 1, 1, 300], &[]);
    c.space("enumerate: the first lines over long words");
    for l in [7i64, 13, 17, 20, 24, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 259, 300, 511, 513, 1000] {
        for s in [2i64, 3, 4, 5, 9, 10, 11, 16, 25, 26] {
            if (s as f64).powi(l as i32) > 1e6 {
                c.case("head", &[s, l, c.b(1500, 20000)], &[]);
            }
        }
    }
    for l in [4096i64, 32768, 65535, 65536, 65537, 70000] {
        for s in [2i64, 3, 26] {
            c.case("head", &[s, l, c.b(30, 300)], &[]);
        }
    }
    c.space("refused parameters");
    for s in [0i64, 1, 2, 26, 27, 28, 255, 256, 257, -1] {
        for l in 0..=3 {
            c.case("enum", &[s, l, 0, 0], &[]);
            for m in 0..=3 {
                c.case("enum", &[s, l, 1, m], &[]);
            }
        }
    }
    c.space("binary strings: other ways to walk");
    for n in (0..=12).chain([31, 32, 33, 61, 62, 63]) {
        c.case("walk", &[n], &[]);
    }
    c.space("binary strings");
    for n in 0..=c.b(18, 22) {
        c.case("bin", &[n], &[]);
    }
    for n in 19..=63 {
        c.case("binhead", &[n], &[]);
    }
    c.space("generator_kmer");
    c.case("kmer", &[], &[]);
}
fn j27(env: &mut Env, c: &Case) -> R {
    match c.kind.as_str() {
        "walk" => {
            let n = c.num(0);
            match walks(&|| core::BinaryStringGenerator::new(n as u8), 600) {
                Ok(steps) => env.steps += steps,
                Err(e) => return bad(format!("BinaryStringGenerator({}): {}", n, e)),
            }
            env.seen(&n);
            Ok(())
        }
        "bin" | "binhead" => {
            let n = c.num(0) as usize;
            let mut g = core::BinaryStringGenerator::new(n as u8);
            let top: u64 = if c.kind == "bin" { 1 << n } else { 40 };
            for i in 0..top {
                env.step();
                let want: Vec<u8> = (0..n).map(|b| if i >> (n - 1 - b).min(63) & 1 == 1 { b'1' } else { b'0' }).collect();
                let got = g.next();
                ensure!(got.as_ref() == Some(&want), "BinaryStringGenerator({}): string {} is {:?} instead of {}", n, i, got.as_ref().map(|g| show(g)), show(&want));
            }
            if c.kind == "bin" {
                for _ in 0..5 {
                    let x = g.next();
                    ensure!(x.is_none(), "BinaryStringGenerator({}) continues after its end with {:?}", n, x.map(|x| show(&x)));
                }
            }
            env.seen(&(n, top));
            Ok(())
        }
        "head" => {
            let (s, l, lines) = (c.num(0) as usize, c.num(1) as usize, c.num(2) as usize);
            let mut q = Req::new(&[&s.to_string(), &l.to_string()], b"");
            q.horizon = lines as u64;
            q.cpu = 40;
            let o = env.run("enumerate", &q)?;
            let mut n = 0;
            let mut digits = vec![0u8; l];
            for x in o.stdout.split(|&x| x == b'\n').take(lines) {
                if o.stdout.len() < (n + 1) * (l + 1) {
                    break; // an incomplete line
                }
                let want: Vec<u8> = digits.iter().map(|&d| b'a' + d).collect();
                ensure!(x == want, "enumerate {} {}: line {} is {} instead of {}", s, l, n, show(x), show(&want));
                n += 1;
                env.step();
                let mut p = l;
                while p > 0 && digits[p - 1] as usize + 1 == s {
                    digits[p - 1] = 0;
                    p -= 1;
                }
                digits[p - 1] += 1; // l letters are more than enough
            }
            ensure!(n >= lines.min(100), "enumerate {} {} stops after {} lines: {}", s, l, n, o.describe());
            env.seen(&(s, l, n));
            env.note = Some(format!("{} lines", n));
            Ok(())
        }
        "kmer" => {
            let r = run_on(env, "generator_kmer", &[], b"", 0)?;
            expect_ok("generator_kmer", &r)?;
            let mut v: Vec<Vec<u8>> = r.stdout.split(|&x| x == b'\n').map(|l| l.to_vec()).collect();
            ensure!(v.pop() == Some(vec![]), "generator_kmer: the last line is not ended");
            v.sort();
            let mut want = vec![];
            spaces::words(b"abcd", 8, 8, &mut |w| want.push(w.to_vec()));
            ensure!(v.len() == want.len(), "generator_kmer prints {} lines instead of {}", v.len(), want.len());
            ensure!(v == want, "generator_kmer does not print every word once");
            env.seen(&v.len());
            env.note = Some(format!("{} words", v.len()));
            Ok(())
        }
        _ => {
            let u = |i| (c.num(i) as u64).to_string();
            let (s, l, has, m) = (c.num(0), c.num(1), c.num(2) == 1, c.num(3));
            let mut o = opts(&[&u(0), &u(1)]);
            if has {
                o.push(u(3));
            }
            let m = if has { m } else { l };
            let r = run_on(env, "enumerate", &o, b"", 0)?;
            if !(1..=26).contains(&s) || l == 0 || m < l {
                ensure!(!r.ok() && r.stdout.is_empty(), "enumerate {:?} is not refused: {}", o, r.describe());
                env.seen(&r.exit);
                return Ok(());
            }
            expect_ok(&format!("enumerate {:?}", o), &r)?;
            let alpha: Vec<u8> = (0..s as u8).map(|i| b'a' + i).collect();
            let mut want = vec![];
            spaces::words(&alpha, l as usize, m as usize, &mut |w| {
                want.extend(w);
                want.push(b'\n');
            });
            if r.stdout != want {
                let p = (0..want.len().min(r.stdout.len())).find(|&i| want[i] != r.stdout[i]).unwrap_or(want.len().min(r.stdout.len()));
                return bad(format!("enumerate {:?} prints {} bytes instead of {}, first difference at byte {}", o, r.stdout.len(), want.len(), p));
            }
            env.seen(&r.stdout);
            env.note = Some(format!("{:?}: {} bytes", o, want.len()));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C33
fn x33(c: &mut Ctx) {
    c.space("run up to a horizon");
    // the length of the prefix of the run is the horizon; shorter ones find a violation sooner
    for k in c.b(vec![1, 12, 120, 250, 505], vec![1, 12, 120, 250, 505, 606]) {
        c.case("run", &[k], &[]);
    }
}
fn j33(env: &mut Env, c: &Case) -> R {
    let lines = c.num(0) as usize;
    let mut q = Req::new(&[], b"");
    q.horizon = lines as u64; // the program never ends by itself
    q.cpu = 110;
    let o = env.run("enumerate_lexparse", &q)?;
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let mut v: Vec<&str> = s.split('\n').collect();
    v.pop(); // what follows the last complete line
    v.truncate(lines); // a program that collects lines before it writes them gets further
    ensure!(v.len() >= lines.min(100), "enumerate_lexparse stops after {} lines: {:?} {}", v.len(), o.exit, o.describe());
    let mut i = 0;
    let mut best = 0usize;
    let mut num = 0u64;
    while i < v.len() {
        let t: Vec<u8> = (0..32).map(|b| b'a' + (num >> b & 1) as u8).collect();
        let swapped: Vec<u8> = t.iter().map(|&x| if x == b'a' { b'b' } else { b'a' }).collect();
        let phrases = |t: &[u8]| model::lexparse(&[t, b"\0"].concat()).len();
        let (p, q) = (phrases(&t), phrases(&swapped));
        let d = p.abs_diff(q);
        if d >= best {
            best = d;
            let (few, many) = if p <= q { (&t, &swapped) } else { (&swapped, &t) };
            let l = v[i];
            let parts: Vec<&str> = l.split('"').collect();
            let ok = parts.len() == 5
                && parts[0].trim().trim_end_matches(':').trim().parse::<usize>().ok() == Some(d)
                && parts[2].trim() == "<->";
            let strip = |x: &str| x.trim_end_matches("\\0").trim_end_matches('\0').as_bytes().to_vec();
            let words_ok = ok && {
                let (a, b) = (strip(parts[1]), strip(parts[3]));
                (&a == few && &b == many) || (p == q && &a == many && &b == few)
            };
            ensure!(
                words_ok,
                "enumerate_lexparse: line {} is {:?} where word {} ({} with {} phrases, {} with {}) should be reported with difference {}",
                i,
                l,
                num,
                show(&t),
                p,
                show(&swapped),
                q,
                d
            );
            i += 1;
            env.validated += 1;
        }
        env.steps += 1;
        num += 1;
        ensure!(num < 40_000 || i > 0, "no line");
    }
    env.seen(&(v.len(), best));
    env.note = Some(format!("{} lines over {} words, largest difference {}", v.len(), num, best));
    Ok(())
}
