//! C45: only the order of the letters matters, not which bytes (or which type) they are.
use super::*;
use crate::ensure;
use crate::util::show;
use std::collections::HashMap;
use stringology::{core, word};

pub const PROPS: &[Prop] = &[Prop {
    id: "C45",
    explore,
    judge,
    progs: &[
        "bwt", "count_r", "lyndonfactorization", "count_lexparse", "count_z", "mus", "entropy", "entropy_kmer", "count_sigma",
        "is_stringattractor", "count_runs", "reverse",
    ],
    what: "texts and renamings of their letters",
    bounds: "library: all words over 2,3,4 letters up to length 10,7,6 (13,9,7) with ten letter types (bytes in three ranges, signed and wide integers of both ends, characters, pairs, reversed order, strings, truth values); twelve programs in 22 option forms: every byte as one of two letters with its successor, the last and the first byte, two letters over all ordered pairs out of 18 bytes with six words, three letters over all triples out of 18 bytes with three words (forms that do not look at the order: also in decreasing and cyclic order), all words over 2,3,4 letters up to length 6,4,4 (9,6,5) in six renamings, texts with 1..255 different letters in 14 alphabet sizes at lengths up to 5000 (70000) in three renamings",
    oracle: "the execution of the same code on the canonical letters",
    fault: false,
}];

/// program, options, whether only the equality of letters matters, kind of result:
/// 0 text of letters, 1 RESULT line, 2 RESULT line and list of factors, 3 plain output and exit status
const FORMS: [(&str, &[&str], bool, u8); 22] = [
    ("bwt", &[], false, 0),
    ("bwt", &["--no-dollar"], false, 0),
    ("bwt", &["--use-matrix"], false, 0),
    ("bwt", &["--use-matrix", "--no-dollar"], false, 0),
    ("count_r", &[], false, 1),
    ("count_r", &["--no-dollar"], false, 1),
    ("count_r", &["--use-matrix"], false, 1),
    ("count_r", &["--use-matrix", "--no-dollar"], false, 1),
    ("lyndonfactorization", &[], false, 1),
    ("count_lexparse", &[], false, 2),
    ("count_z", &[], true, 1),
    ("count_z", &[], false, 2),
    ("mus", &[], true, 1),
    ("entropy", &["--order", "0"], true, 1),
    ("entropy", &["--order", "2"], true, 1),
    ("entropy_kmer", &["--order", "1"], true, 1),
    ("entropy_kmer", &["--order", "3"], true, 1),
    ("entropy_kmer", &["--order", "7"], true, 1),
    ("count_sigma", &[], true, 1),
    ("is_stringattractor", &["--attractor", "0", "1", "3", "5"], true, 3),
    ("count_runs", &[], true, 3),
    ("reverse", &[], true, 0),
];
const LETTERS: [u8; 18] = [1, 2, 9, 10, 13, 31, 32, 48, 57, 65, 97, 122, 127, 128, 129, 192, 254, 255];

fn increasing(m: &[u8]) -> bool {
    m.windows(2).all(|w| w[0] < w[1])
}
fn explore(c: &mut Ctx) {
    let forms = |c: &mut Ctx, w: &[u8], m: &[u8]| {
        for (i, f) in FORMS.iter().enumerate() {
            // (it lists all uncovered substrings of the long ones)
            if f.0.starts_with("is_") && !(5..=5000).contains(&w.len()) {
                continue;
            }
            if f.2 || increasing(m) {
                c.case("prog", &[i as i64], &[w, m]);
            }
        }
    };
    c.space("library: letter types");
    let (b, t, q) = c.b((10, 7, 6), (13, 9, 7));
    spaces::words(&[0, 1], 1, b, &mut |w| c.case("types", &[], &[w]));
    spaces::words(&[0, 1, 2], 1, t, &mut |w| c.case("types", &[], &[w]));
    spaces::words(&[0, 1, 2, 3], 1, q, &mut |w| c.case("types", &[], &[w]));
    for n in [20usize, 63, 64, 65, 100, 128, 200, 257] {
        for f in 0..spaces::FAMILIES {
            let w: Vec<u8> = spaces::family(f, n).iter().map(|x| x % 4).collect();
            c.case("types", &[], &[&w]);
        }
    }
    c.space("two letters");
    for x in LETTERS {
        for y in LETTERS {
            if x != y {
                for w in [&[0u8, 1][..], &[0, 0, 1, 0, 1], &[1, 0, 0, 1, 0, 0, 1, 1], &[1, 1, 1, 0, 1, 1], &[0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 1], &[1, 1, 0, 0, 0, 0, 0]] {
                    forms(c, w, &[x, y]);
                }
            }
        }
    }
    c.space("every byte");
    for v in 1..=254u8 {
        for m in [[v, v + 1], [v, 255], [1, v + 1]] {
            for w in [&[0u8, 1, 0, 0, 1][..], &[1, 1, 0, 1, 0, 1, 1, 0]] {
                forms(c, w, &m);
            }
        }
    }
    c.space("three letters");
    for (i, &x) in LETTERS.iter().enumerate() {
        for (j, &y) in LETTERS.iter().enumerate().skip(i + 1) {
            for &z in LETTERS.iter().skip(j + 1) {
                for w in [&[1u8, 0, 2, 0, 1][..], &[2, 1, 0, 1, 2, 2, 1, 0, 0], &[0, 1, 2, 0, 0, 1, 0, 2, 1, 1]] {
                    forms(c, w, &[x, y, z]);
                    forms(c, w, &[z, y, x]);
                    forms(c, w, &[y, z, x]);
                }
            }
        }
    }
    c.space("all small words");
    let (b, t, q) = c.b((6, 4, 4), (9, 6, 5));
    for (k, n) in [(2u8, b), (3, t), (4, q)] {
        let a: Vec<u8> = (0..k).collect();
        spaces::words(&a, 1, n, &mut |w| {
            for m in [[1u8, 2, 3, 4], [252, 253, 254, 255], [1, 127, 128, 255], [9, 10, 32, 128], [128, 64, 2, 1], [200, 1, 255, 127]] {
                forms(c, w, &m[..k as usize]);
            }
        });
    }
    c.space("many letters");
    for k in [1usize, 2, 3, 4, 5, 16, 26, 64, 100, 127, 128, 129, 200, 254] {
        for n in [50usize, 99, 130, 300, 1000, c.b(5000, 70000)] {
            for f in [10usize, 7, 21, 5] {
                let w: Vec<u8> = spaces::family(f, n).iter().map(|&x| (x as usize % k) as u8).collect();
                let top: Vec<u8> = (0..k).map(|i| (256 - k + i) as u8).collect();
                let wide: Vec<u8> = (0..k).map(|i| (1 + i * 254 / (k - 1).max(1)) as u8).collect();
                let turned: Vec<u8> = (0..k).map(|i| (1 + (i * 7 + 200) % 255) as u8).collect();
                forms(c, &w, &top);
                forms(c, &w, &wide);
                let mut d = turned.clone();
                d.sort();
                d.dedup();
                if d.len() == k {
                    forms(c, &w, &turned);
                }
                c.case("bytes", &[], &[&w, &top]);
                c.case("bytes", &[], &[&w, &wide]);
            }
        }
    }
    c.space("library: bytes");
    let (b, t) = c.b((8, 6), (11, 8));
    for (k, n) in [(2u8, b), (3, t)] {
        let a: Vec<u8> = (0..k).collect();
        spaces::words(&a, 1, n, &mut |w| {
            for m in [[1u8, 2, 3], [253, 254, 255], [127, 128, 129], [1, 128, 255], [10, 13, 32]] {
                c.case("bytes", &[], &[w, &m[..k as usize]]);
            }
        });
    }
}

/// the result of a program, with letters named by their rank
#[derive(Clone, PartialEq, Debug)]
struct Res {
    exit: Exit,
    letters: Vec<u16>,
    fields: Vec<(String, String)>,
    factors: String,
}
fn run(env: &mut Env, form: usize, w: &[u8], m: &[u8]) -> Result<Res, Fail> {
    let (prog, o, _, kind) = FORMS[form];
    let text: Vec<u8> = w.iter().map(|&x| m[x as usize]).collect();
    let rank = |b: u8| match m.iter().position(|&x| x == b) {
        Some(i) => i as u16,
        None => 256 + b as u16,
    };
    let out = env.file("c45out");
    let mut o = opts(o);
    if kind == 2 {
        let _ = std::fs::remove_file(&out);
        o.push("--outfilename".into());
        o.push(out.clone());
    }
    let r = run_on(env, prog, &o, &text, CH_STDIN)?;
    let mut res = Res { exit: r.exit, letters: vec![], fields: vec![], factors: String::new() };
    match kind {
        0 => {
            expect_ok(prog, &r)?;
            let mut t = [256u16; 256];
            for b in 0..=255u8 {
                t[b as usize] = rank(b);
            }
            res.letters = r.stdout.iter().map(|&b| t[b as usize]).collect();
        }
        1 | 2 => {
            expect_ok(prog, &r)?;
            let mut f: Vec<_> = result_fields(&r)?.into_iter().filter(|(k, _)| k != "time_ms").collect();
            f.sort();
            res.fields = f;
            if kind == 2 {
                let s = std::fs::read_to_string(&out).map_err(|e| Fail::Bad(format!("{}: no list of factors: {}", prog, e)))?;
                // (letter,0) becomes (rank,0)
                for p in s.split_inclusive(')') {
                    let q: Option<(u8, &str)> = p.strip_prefix('(').and_then(|x| x.strip_suffix(",0)")).and_then(|x| Some((x.parse().ok()?, x)));
                    match q {
                        Some((b, _)) => res.factors.push_str(&format!("[letter {}]", rank(b))),
                        None => res.factors.push_str(p),
                    }
                }
            }
        }
        _ => {
            let s = String::from_utf8_lossy(&r.stdout).to_string();
            if prog == "count_runs" {
                expect_ok(prog, &r)?;
                res.factors = s.trim().to_string();
            } else {
                let not = s.contains("not a valid attractor");
                ensure!(r.exit == Exit::Code(if not { 2 } else { 0 }) || r.exit == Exit::Code(1), "{}: {}", prog, r.describe());
                res.factors = if not { "not valid" } else { "valid" }.to_string();
            }
        }
    }
    Ok(res)
}
fn same(a: &Res, b: &Res) -> bool {
    if (a.exit, &a.letters, &a.factors, a.fields.len()) != (b.exit, &b.letters, &b.factors, b.fields.len()) {
        return false;
    }
    a.fields.iter().zip(&b.fields).all(|(x, y)| {
        // sums may be taken in another order
        let near = |p: &str, q: &str| match (p.parse::<f64>(), q.parse::<f64>()) {
            (Ok(p), Ok(q)) => p.fract() != 0.0 && (p - q).abs() <= 1e-9 * p.abs().max(q.abs()).max(1.0),
            _ => false,
        };
        x.0 == y.0 && (x.1 == y.1 || near(&x.1, &y.1) || near(&y.1, &x.1))
    })
}
thread_local! {
    static BASE: std::cell::RefCell<HashMap<(usize, Vec<u8>), Res>> = Default::default();
}

/// the results of the generic functions, with letters named by their rank
fn generic<C: Ord + Copy>(w: &[u8], m: &[C]) -> String {
    let t: Vec<C> = w.iter().map(|&x| m[x as usize]).collect();
    let rank = |v: &[C]| v.iter().map(|x| m.iter().position(|y| y == x).unwrap()).collect::<Vec<_>>();
    let sa = core::suffixarray_naive(&t);
    let b = core::border_array(&t);
    let mut s = format!(
        "sa {:?} border {:?} period {} primitive {} duval {:?} conjugate {} matrix {:?} bijective {:?} bwt {:?}",
        sa,
        b,
        core::smallest_period(&b),
        core::is_primitive(&t),
        core::duval(&t),
        core::lyndon_conjugate(&t),
        rank(&core::bwt_by_matrix_naive(&t)),
        rank(&core::bbwt_naive(&t)),
        rank(&core::bwt_from_sa(&t, &sa)),
    );
    s.push_str(&format!(" psv {:?} nsv {:?} conjugates", core::compute_psv(&t), core::compute_nsv(&t)));
    for c in core::ConjugateIterator::new(&t) {
        s.push_str(&format!(" {:?}", rank(&c)));
    }
    s
}
/// the results of the functions over bytes
fn bytes(w: &[u8], m: &[u8]) -> String {
    let t: Vec<u8> = w.iter().map(|&x| m[x as usize]).collect();
    let rank = |v: &[u8]| v.iter().map(|x| m.iter().position(|y| y == x).map_or(-1, |p| p as i64)).collect::<Vec<_>>();
    let t0 = [&t[..], &[0]].concat();
    let sa: Vec<i32> = core::suffixarray_naive(&t).iter().map(|&x| x as i32).collect();
    let phi = core::compute_phi(&sa);
    format!(
        "bwt {:?} matrix {:?} {:?} plcp {:?} necklace {} runs {} duval {:?} border {:?}",
        rank(&core::bwt_from_text_by_sa(&t0)),
        rank(&core::bwt_by_matrix(&t)),
        rank(&core::bwt_by_matrix(&t0)),
        core::compute_plcp(&t, &phi),
        word::is_necklace(&t, t.len()),
        core::number_of_runs(&mut &t[..]),
        core::duval(&t),
        core::border_array(&t),
    )
}

fn judge(env: &mut Env, c: &Case) -> R {
    let w = &c.words[0];
    let differ = |name: &str, a: &str, b: &str| -> R {
        let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(30);
        let cut = |s: &str| s.chars().skip(at).take(150).collect::<String>();
        ensure!(a == b, "{} of the word with letter ranks {:?}: ...{} instead of ...{}", name, super::lyndon::trim(w), cut(b), cut(a));
        Ok(())
    };
    match c.kind.as_str() {
        "types" => {
            let base = generic(w, b"abcd");
            macro_rules! over {
                ($name:expr, $letters:expr) => {{
                    env.step();
                    differ($name, &base, &generic(w, &$letters))?;
                }};
            }
            over!("low bytes", [0u8, 1, 2, 3]);
            over!("high bytes", [252u8, 253, 254, 255]);
            over!("bytes", [0u8, 127, 128, 255]);
            over!("signed bytes", [-128i8, -1, 0, 127]);
            over!("u16", [0u16, 255, 256, 65535]);
            over!("i32", [i32::MIN, -1, 0, i32::MAX]);
            over!("u64", [0u64, 1 << 32, 1 << 63, u64::MAX]);
            over!("i128", [i128::MIN, -1, 1 << 64, i128::MAX]);
            over!("char", ['a', '\u{e9}', '\u{ffff}', '\u{10ffff}']);
            over!("pairs", [(0u8, 255u8), (1, 0), (1, 1), (2, 0)]);
            over!("reversed order", [9u8, 5, 3, 0].map(std::cmp::Reverse));
            over!("strings", ["", "a", "aa", "b"]);
            if w.iter().all(|&x| x < 2) {
                over!("truth values", [false, true]);
            }
            env.seen(&base);
            env.note = Some(base.chars().take(100).collect());
        }
        "bytes" => {
            let k = c.words[1].len();
            let m0: Vec<u8> = (1..=k as u8).collect();
            let base = bytes(w, &m0);
            env.step();
            differ(&format!("bytes {:?}", super::lyndon::trim(&c.words[1])), &base, &bytes(w, &c.words[1]))?;
            env.seen(&base);
        }
        _ => {
            let (form, m) = (c.num(0) as usize, &c.words[1]);
            // letters from a on, or from the first byte on if there are too many of them
            let m0: Vec<u8> = if m.len() <= 26 { (b'a'..).take(m.len()).collect() } else { (1..=m.len() as u8).collect() };
            let key = (form, [&[m.len() as u8], &w[..]].concat());
            let base = match BASE.with(|b| b.borrow().get(&key).cloned()) {
                Some(b) => b,
                None => {
                    let r = run(env, form, w, &m0)?;
                    BASE.with(|b| {
                        let mut b = b.borrow_mut();
                        if b.len() >= 400 {
                            b.clear();
                        }
                        b.insert(key, r.clone());
                    });
                    r
                }
            };
            let got = run(env, form, w, m)?;
            ensure!(
                same(&base, &got),
                "{} {} on {}: {} but on {}: {}",
                FORMS[form].0,
                FORMS[form].1.join(" "),
                show(&w.iter().map(|&x| m0[x as usize]).collect::<Vec<u8>>()),
                brief(&base),
                show(&w.iter().map(|&x| m[x as usize]).collect::<Vec<u8>>()),
                brief(&got)
            );
            env.seen(&(form, &got.letters, &got.fields, &got.factors));
            env.note = Some(brief(&got));
        }
    }
    Ok(())
}
fn brief(r: &Res) -> String {
    format!("{:?} {:?} {:?} {}", r.exit, super::lyndon::trim(&r.letters), r.fields, r.factors.chars().take(200).collect::<String>()).chars().take(400).collect()
}
