//! The cost of the linear-time algorithms and of the programs on large repetitive texts.
use super::*;
use crate::ensure;
use crate::server::*;
use crate::util::show;
use std::cell::Cell;
use std::cmp::Ordering;
use stringology::{core, word};

pub const PROPS: &[Prop] = &[Prop {
    id: "C42",
    explore: x42,
    judge: j42,
    progs: &[
        "bwt", "count_r", "count_z", "count_lexparse", "lyndonfactorization", "mus", "entropy", "entropy_kmer", "mtf", "rle", "reverse",
        "escape", "count_sigma", "count_runs", "is_stringattractor", "word", "randomstring",
    ],
    what: "words, arrays and permutations with a counting element type; large texts given to the programs",
    bounds: "comparisons of all words over 2,3,4 letters up to length 15,9,7 (18,11,9), of all permutations and of all arrays over 3 values up to length 8 (9), and of families at every length up to 300 (600) and around powers of two up to 131074, and of 27 texts and 8 arrays of length 2^20 (2^22), on a stack of 8 MB; every program with every algorithmic option on 27 texts of 2^20 (2^22) letters, 24 families and three with blocks, and the generators of words with outputs of 10^5 to 10^6 letters, at most 20 s of CPU time each",
    oracle: "counters in the comparison functions; the CPU time limit of the program",
    fault: false,
}];

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    N.with(|n| n.set(n.get() + 1));
}
fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    N.with(|n| n.set(0));
    let r = f();
    (r, N.with(|n| n.get()))
}
/// a letter that counts its comparisons
#[derive(Clone, Copy, Debug)]
struct L(u32);
impl PartialEq for L {
    fn eq(&self, o: &L) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for L {}
impl PartialOrd for L {
    fn partial_cmp(&self, o: &L) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for L {
    fn cmp(&self, o: &L) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
/// a text that counts how often its letters are read
struct T<'a>(&'a [u8]);
impl std::ops::Index<usize> for T<'_> {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        tick();
        &self.0[i]
    }
}

const FORMS: &[(&str, &[&str])] = &[
    ("bwt", &[]),
    ("bwt", &["--no-dollar"]),
    ("bwt", &["--use-matrix"]),
    ("bwt", &["--use-matrix", "--no-dollar"]),
    ("count_r", &[]),
    ("count_r", &["--use-matrix", "--no-dollar"]),
    ("count_z", &[]),
    ("count_z", &["-o"]),
    ("count_lexparse", &[]),
    ("count_lexparse", &["-o"]),
    ("lyndonfactorization", &[]),
    ("lyndonfactorization", &["-o"]),
    ("mus", &[]),
    ("entropy", &["-o", "0"]),
    ("entropy", &["-o", "1"]),
    ("entropy", &["-o", "8"]),
    ("entropy", &["-o", "1000"]),
    ("entropy_kmer", &["-o", "1"]),
    ("entropy_kmer", &["-o", "7"]),
    ("mtf", &[]),
    ("rle", &[]),
    ("rle", &["--human"]),
    ("rle", &["--onlyzero"]),
    ("reverse", &[]),
    ("escape", &["-f", "97", "-t", "65", "-e", "64"]),
    ("count_sigma", &[]),
    ("count_runs", &[]),
    ("count_r", &["--no-dollar"]),
    ("count_r", &["--use-matrix"]),
    ("escape", &["-f", "97", "-t", "65", "-e", "0", "--is-reversion"]),
    ("is_stringattractor", &["-a", "0", "1", "5", "524287", "524288", "524289", "1048574", "1048575", "1048576"]),
];
/// generators of long texts
const GENERATORS: &[&[&str]] = &[
    &["randomstring", "-p", "1048576", "-a", "2"],
    &["randomstring", "-p", "1048576", "-a", "62"],
    &["word", "-n", "fibonacci", "-k", "28"],
    &["word", "-n", "fibonacci-lyndon-factor", "-k", "13"],
    &["word", "-n", "tribonacci", "-k", "22"],
    &["word", "-n", "kolakoski", "-k", "26"],
    &["word", "-n", "thue-morse", "-k", "20"],
    &["word", "-n", "period-doubling", "-k", "20"],
    &["word", "-n", "paper-folding", "-k", "20"],
    &["word", "-n", "quaternary-paper-folding", "-k", "20"],
    &["word", "-n", "power2", "-k", "20"],
    &["word", "-n", "vtm", "-k", "19"],
];
fn x42(c: &mut Ctx) {
    c.space("comparisons: small words");
    let (b, t, q) = c.b((15, 9, 7), (18, 11, 9));
    spaces::words(b"ab", 1, b, &mut |w| c.case("word", &[], &[w]));
    spaces::words(b"abc", 1, t, &mut |w| c.case("word", &[], &[w]));
    spaces::words(b"abcd", 1, q, &mut |w| c.case("word", &[], &[w]));
    c.space("comparisons: permutations");
    for n in 2..=c.b(8, 9) {
        let mut p: Vec<u8> = (0..n as u8).collect();
        permutations(&mut p, 0, &mut |p| c.case("array", &[], &[p]));
    }
    c.space("comparisons: families");
    spaces::long(c.b(300, 600), 131074, &mut |w| c.case("word", &[], &[w]));
    for n in spaces::thresholds(131074) {
        for kind in 0..8 {
            c.case("long", &[kind, n as i64], &[]);
        }
    }
    c.space("large words and arrays on a stack of 8 MB");
    for kind in 0..8 {
        c.case("long", &[kind, 1 << c.b(20, 22)], &[]);
    }
    for k in 0..spaces::FAMILIES as i64 + 3 {
        c.case("deep", &[k, c.b(20, 22)], &[]);
    }
    c.space("programs on large texts");
    for form in 0..FORMS.len() as i64 {
        for k in 0..spaces::FAMILIES as i64 + 3 {
            if FORMS[form as usize].0 != "is_stringattractor" {
                c.case("large", &[form, k, c.b(20, 22)], &[]);
            } else if [0, 1, 2, 3, 4, 16, 20, 23].contains(&k) {
                // the others are not covered, and all their uncovered substrings would be listed
                c.case("large", &[form, k, 20], &[]);
            }
        }
    }
    c.space("generators of large texts");
    for g in 0..GENERATORS.len() as i64 {
        c.case("gen", &[g], &[]);
    }
}
fn permutations(p: &mut Vec<u8>, k: usize, f: &mut dyn FnMut(&[u8])) {
    if k == p.len() {
        return f(p);
    }
    for i in k..p.len() {
        p.swap(k, i);
        permutations(p, k + 1, f);
        p.swap(k, i);
    }
}
/// runs a library function on a stack as large as that of a main thread
fn on_stack<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
    if n < 1 << 20 {
        return Ok(f());
    }
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join() {
        Ok(r) => Ok(r),
        Err(_) => bad(format!("panic on {} letters", n)),
    })
}
fn arrays(env: &mut Env, v: &[L], what: &str) -> R {
    let n = v.len() as u64;
    type A = fn(&[L]) -> Vec<u32>;
    for (name, f) in [("compute_psv", core::compute_psv as A), ("compute_nsv", core::compute_nsv as A)] {
        let (_, k) = on_stack(v.len(), || counted(|| f(v)))?;
        env.step();
        ensure!(k <= 16 * n + 16, "{} makes {} comparisons for the {} elements of {}", name, k, n, what);
        env.seen(&(name, n, k));
    }
    Ok(())
}
fn words(env: &mut Env, t: &[u8], what: &str) -> R {
    let v: Vec<L> = t.iter().map(|&x| L(x as u32)).collect();
    let n = t.len() as u64;
    let mut most = 0;
    let mut one = |env: &mut Env, name: &str, bound: u64, f: &(dyn Fn() + Sync)| -> R {
        let k = on_stack(t.len(), || counted(f).1)?;
        env.step();
        ensure!(k <= bound, "{} makes {} comparisons for the {} letters of {}", name, k, n, what);
        env.seen(&(name, n, k));
        most = most.max(k);
        Ok(())
    };
    one(env, "duval", 16 * n + 16, &|| drop(core::duval(&v)))?;
    one(env, "lyndon_conjugate", 32 * n + 32, &|| drop(core::lyndon_conjugate(&v)))?;
    one(env, "border_array", 16 * n + 16, &|| drop(core::border_array(&v)))?;
    one(env, "is_primitive", 16 * n + 16, &|| drop(core::is_primitive(&v)))?;
    one(env, "is_necklace", 32 * n + 32, &|| drop(word::is_necklace(&T(t), t.len())))?;
    env.note = Some(format!("at most {} comparisons for {} letters", most, n));
    arrays(env, &v, what)
}
fn large_text(k: usize, n: usize) -> Vec<u8> {
    match k.checked_sub(spaces::FAMILIES) {
        None => spaces::family(k, n).iter().map(|&x| x.max(1)).collect(),
        // blocks of equal letters of length sqrt(n)
        Some(0) => (0..n).map(|i| b"ab"[i >> 10 & 1]).collect(),
        // a^i b with descending i
        Some(1) => {
            let mut w = vec![];
            let mut i = 1400;
            while w.len() < n {
                w.extend(std::iter::repeat(b'a').take(i));
                w.push(b'b');
                i = if i > 1 { i - 1 } else { 1400 };
            }
            w.truncate(n);
            w
        }
        // ascending letters, each block a little longer
        Some(_) => (0..n).map(|i| 1 + ((i as f64).powf(0.39) as u8).min(254)).collect(),
    }
}
fn j42(env: &mut Env, c: &Case) -> R {
    match c.kind.as_str() {
        "word" => {
            let t = &c.words[0];
            words(env, t, &show(t))
        }
        "deep" => {
            let t = large_text(c.num(0) as usize, 1 << c.num(1));
            words(env, &t, &format!("the text {}", c.num(0)))
        }
        "array" => {
            let v: Vec<L> = c.words[0].iter().map(|&x| L(x as u32)).collect();
            arrays(env, &v, &format!("{:?}", c.words[0]))
        }
        "long" => {
            let n = c.num(1) as u32;
            let v: Vec<L> = (0..n)
                .map(|i| {
                    L(match c.num(0) {
                        0 => i,
                        1 => n - i,
                        2 => i.min(n - i),
                        3 => n - i.min(n - i),
                        4 => i.reverse_bits(),
                        5 => i.wrapping_mul(2654435761),
                        6 => (i % 1000) * 1000 + i / 1000,
                        _ => i ^ 1,
                    })
                })
                .collect();
            arrays(env, &v, &format!("the array {} of length {}", c.num(0), n))
        }
        "gen" => {
            let g = GENERATORS[c.num(0) as usize];
            let mut q = Req::new(&g[1..], b"");
            q.cpu = 20;
            let r = env.run(g[0], &q)?;
            ensure!(r.ok() && r.stdout.len() >= 100000, "{:?} writes {} bytes: {:?} {:?}", g, r.stdout.len(), r.exit, String::from_utf8_lossy(&r.stderr));
            env.seen(&(c.num(0), r.stdout.len()));
            Ok(())
        }
        _ => {
            let (prog, o) = FORMS[c.num(0) as usize];
            let t = large_text(c.num(1) as usize, 1 << c.num(2));
            let f = env.file("out");
            let mut args = o.to_vec();
            if args == ["-o"] {
                args.push(&f);
            }
            let mut q = Req::new(&args, &t);
            q.cpu = 20;
            let r = env.run(prog, &q)?;
            let _ = std::fs::remove_file(&f);
            ensure!(r.ok(), "{} {:?} on the text {} of {} letters: {}", prog, o, c.num(1), t.len(), r.describe());
            env.seen(&(prog, o, hash64(&r.stdout)));
            Ok(())
        }
    }
}
