//! Library calls do not influence each other: sequences of calls and interleavings of iterators.
use super::*;
use crate::ensure;
use std::sync::OnceLock;
use stringology::{core, io, word};

pub const PROPS: &[Prop] = &[Prop {
    id: "C40",
    explore: x40,
    judge: j40,
    progs: &[],
    what: "sequences of library calls; calls nested in the callbacks of others; interleavings of the steps of generators that are alive together",
    bounds: "about 510 calls (every public function on 16 texts or 12 numbers, 29 calls that are refused, the readers on files that are rewritten, the beginnings of 18 generators): every ordered pair in a fresh process, every ordered triple of 40 (100) calls, two of each kind; one call of each function and 29 refused calls within every comparison, read or access of 12 functions on 5 texts, in the same and in another thread, and after a panic there; every pair of 18 generators with all interleavings of 5 (7) steps each, every triple of 6 with all interleavings of 2 (3) steps each, and with a function call between any two steps",
    oracle: "the result of the single call as the first one of a fresh process",
    fault: false,
}];

type Op = (String, Box<dyn Fn(&str) -> String + Send + Sync>);

fn texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> =
        [&b"a"[..], b"b", b"ab", b"ba", b"aab", b"aba", b"baa", b"abab", b"aabb", b"abcabc", b"zyx", b"\xff\x01", b"abaababa"]
            .iter()
            .map(|w| w.to_vec())
            .collect();
    v.push(spaces::family(9, 300));
    v.push(spaces::family(10, 300));
    v.push(spaces::family(11, 420));
    v
}
struct Gen(&'static str, fn() -> Box<dyn Iterator<Item = Vec<u8>>>);
const GENS: &[Gen] = &[
    Gen("LyndonWordGenerator(3,2)", || Box::new(core::LyndonWordGenerator::new(3, 2))),
    Gen("LyndonWordGenerator(6,2)", || Box::new(core::LyndonWordGenerator::new(6, 2))),
    Gen("LyndonWordGenerator(4,3)", || Box::new(core::LyndonWordGenerator::new(4, 3))),
    Gen("LyndonWordGenerator(3,1)", || Box::new(core::LyndonWordGenerator::new(3, 1))),
    Gen("LyndonWordGenerator(2,256)", || Box::new(core::LyndonWordGenerator::new(2, 256))),
    Gen("BinaryStringGenerator(1)", || Box::new(core::BinaryStringGenerator::new(1))),
    Gen("BinaryStringGenerator(3)", || Box::new(core::BinaryStringGenerator::new(3))),
    Gen("BinaryStringGenerator(9)", || Box::new(core::BinaryStringGenerator::new(9))),
    Gen("ConjugateIterator(a)", || Box::new(core::ConjugateIterator::new(b"a"))),
    Gen("ConjugateIterator(abc)", || Box::new(core::ConjugateIterator::new(b"abc"))),
    Gen("ConjugateIterator(cba)", || Box::new(core::ConjugateIterator::new(b"cba"))),
    Gen("ConjugateIterator(ababcab)", || Box::new(core::ConjugateIterator::new(b"ababcab"))),
    Gen("RandomStringGenerator(0..10,1)", || Box::new(core::RandomStringGenerator::new(0..10, 1))),
    Gen("RandomStringGenerator(3..20,2)", || Box::new(core::RandomStringGenerator::new(3..20, 2))),
    Gen("RandomStringGenerator(90..400,3)", || Box::new(core::RandomStringGenerator::new(90..400, 3))),
    Gen("LyndonWordGenerator(6,2) again", || Box::new(core::LyndonWordGenerator::new(6, 2))),
    Gen("BinaryStringGenerator(9) again", || Box::new(core::BinaryStringGenerator::new(9))),
    Gen("LyndonWordGenerator(1,5)", || Box::new(core::LyndonWordGenerator::new(1, 5))),
];
const STEPS: usize = 7;

/// a reader that delivers some bytes and then fails
struct Breaks(usize);
impl std::io::Read for Breaks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied));
        }
        self.0 -= 1;
        b[0] = b'x' + (self.0 % 2) as u8;
        Ok(1)
    }
}

// symbols, readers and containers that call back whenever they are looked at
thread_local! {
    static HOOK: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}
fn looked() {
    // the hook does not call itself
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
    }
}
#[derive(Clone, Copy)]
struct P(u8);
impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        looked();
        self.0 == o.0
    }
}
impl Eq for P {}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for P {
    fn cmp(&self, o: &P) -> std::cmp::Ordering {
        looked();
        self.0.cmp(&o.0)
    }
}
struct Watched<'a>(&'a [P]);
impl std::io::Read for Watched<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        looked();
        if self.0.is_empty() || b.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0].0;
        self.0 = &self.0[1..];
        Ok(1)
    }
}
impl std::ops::Index<usize> for Watched<'_> {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        looked();
        &self.0[i].0
    }
}
/// the functions that look at symbols, readers or containers of the caller
const OUTER: &[(&str, fn(&[P]) -> String)] = &[
    ("duval", |t| format!("{:?}", core::duval(t))),
    ("lyndon_conjugate", |t| format!("{:?}", core::lyndon_conjugate(t))),
    ("is_primitive", |t| format!("{:?}", core::is_primitive(t))),
    ("border_array", |t| format!("{:?}", core::border_array(t))),
    ("bbwt_naive", |t| format!("{:?}", core::bbwt_naive(t))),
    ("suffixarray_naive", |t| format!("{:?}", core::suffixarray_naive(t))),
    ("bwt_by_matrix_naive", |t| format!("{:?}", core::bwt_by_matrix_naive(t))),
    ("compute_psv", |t| format!("{:?}", core::compute_psv(t))),
    ("compute_nsv", |t| format!("{:?}", core::compute_nsv(t))),
    ("number_of_runs", |t| format!("{:?}", core::number_of_runs(&mut Watched(t)))),
    ("read_char", |t| {
        let mut r = Watched(t);
        let mut v = vec![];
        while let Ok(c) = io::read_char(&mut r) {
            v.push(c);
        }
        format!("{:?}", v)
    }),
    ("is_necklace", |t| format!("{:?}", word::is_necklace(&Watched(t), t.len()))),
];
const OUTER_TEXTS: [&[u8]; 5] = [b"abaab", b"baab", b"abcabc", b"zyx", b"aaabaaab"];
/// runs an outer function; `f` is called at the `at`-th look
fn outer(o: usize, w: usize, at: usize, mut f: Box<dyn FnMut()>) -> String {
    let t: Vec<P> = OUTER_TEXTS[w].iter().map(|&c| P(c)).collect();
    let mut k = 0;
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move || {
            if k == at {
                f()
            }
            k += 1;
        }))
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| OUTER[o].1(&t))).unwrap_or_else(|_| "panics".to_string());
    HOOK.with(|h| h.borrow_mut().take());
    r
}
/// how often an outer function looks at its text
fn looks(o: usize, w: usize) -> usize {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    let t: Vec<P> = OUTER_TEXTS[w].iter().map(|&c| P(c)).collect();
    HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move || m.set(m.get() + 1))));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| OUTER[o].1(&t)));
    HOOK.with(|h| h.borrow_mut().take());
    n.get()
}
fn aborted(o: usize, at: usize) -> String {
    outer(o, 2, at, Box::new(|| panic!("the comparison fails")))
}

/// all calls, grouped by function; each takes a directory for the readers
fn ops() -> &'static Vec<Vec<Op>> {
    static OPS: OnceLock<Vec<Vec<Op>>> = OnceLock::new();
    OPS.get_or_init(|| {
        let mut groups: Vec<Vec<Op>> = vec![];
        fn on_texts(groups: &mut Vec<Vec<Op>>, name: &str, f: fn(&[u8]) -> String) {
            groups.push(
                texts()
                    .into_iter()
                    .map(|t| -> Op { (format!("{} of {}", name, crate::util::show(&t)), Box::new(move |_| f(&t))) })
                    .collect(),
            );
        }
        fn z(t: &[u8]) -> Vec<u8> {
            [t, &b"\0"[..]].concat()
        }
        fn sa(t: &[u8]) -> Vec<i32> {
            let mut s: Vec<i32> = (0..t.len() as i32).collect();
            s.sort_by(|&a, &b| t[a as usize..].cmp(&t[b as usize..]));
            s
        }
        let g = &mut groups;
        on_texts(g, "bwt_from_text_by_sa", |t| format!("{:?}", core::bwt_from_text_by_sa(&z(t))));
        on_texts(g, "bwt_by_matrix_naive", |t| format!("{:?}", core::bwt_by_matrix_naive(t)));
        on_texts(g, "bwt_by_matrix", |t| format!("{:?}", core::bwt_by_matrix(t)));
        on_texts(g, "lyndon_conjugate", |t| format!("{:?}", core::lyndon_conjugate(t)));
        on_texts(g, "is_primitive", |t| format!("{:?}", core::is_primitive(t)));
        on_texts(g, "border_array", |t| format!("{:?}", core::border_array(t)));
        on_texts(g, "smallest_period", |t| format!("{:?}", core::smallest_period(&core::border_array(t))));
        on_texts(g, "bbwt_naive", |t| format!("{:?}", core::bbwt_naive(&t[..t.len().min(60)])));
        on_texts(g, "suffixarray_naive", |t| format!("{:?}", core::suffixarray_naive(t)));
        on_texts(g, "bwt_from_sa", |t| format!("{:?}", core::bwt_from_sa(t, &core::suffixarray_naive(t))));
        on_texts(g, "compute_phi", |t| format!("{:?}", core::compute_phi(&sa(t))));
        on_texts(g, "inverse_permutation", |t| format!("{:?}", core::inverse_permutation(&sa(t))));
        on_texts(g, "compute_plcp", |t| format!("{:?}", core::compute_plcp(&z(t), &core::compute_phi(&sa(&z(t))))));
        on_texts(g, "compute_lcp", |t| {
            let s = sa(&z(t));
            format!("{:?}", core::compute_lcp(&core::compute_plcp(&z(t), &core::compute_phi(&s)), &s))
        });
        on_texts(g, "compute_psv", |t| format!("{:?}", core::compute_psv(t)));
        on_texts(g, "compute_nsv", |t| format!("{:?}", core::compute_nsv(t)));
        on_texts(g, "duval", |t| format!("{:?}", core::duval(t)));
        on_texts(g, "duval over numbers", |t| {
            let w: Vec<u64> = t.iter().map(|&c| (c as u64) << 40).collect();
            format!("{:?}", core::duval(&w))
        });
        on_texts(g, "isa_lyndon_factorization", |t| {
            let s = sa(t);
            let mut isa = vec![0i32; s.len()];
            for (i, &x) in s.iter().enumerate() {
                isa[x as usize] = i as i32;
            }
            format!("{:?}", core::isa_lyndon_factorization(&isa))
        });
        on_texts(g, "number_of_runs", |t| format!("{:?}", core::number_of_runs(&mut &t[..])));
        on_texts(g, "read_char", |t| {
            let mut r = t;
            let mut v: Vec<u8> = vec![];
            while let Ok(c) = io::read_char(&mut r) {
                v.push(c);
            }
            format!("{:?} {:?}", v, io::next_char(&mut r))
        });
        on_texts(g, "is_necklace", |t| {
            let w: Vec<u8> = t.to_vec();
            format!("{:?} {:?}", word::is_necklace(&w, w.len()), word::is_necklace(&w, (w.len() + 1) / 2))
        });
        // the same name with other contents
        g.push(
            texts()
                .into_iter()
                .enumerate()
                .map(|(i, t)| -> Op {
                    (
                        format!("file2byte_vector of a file with {}", crate::util::show(&t)),
                        Box::new(move |d| {
                            let f = format!("{}/history", d);
                            std::fs::write(&f, &t).unwrap();
                            format!("{:?} {:?}", io::file2byte_vector(&f, [0, 1, 3][i % 3]), io::file_or_stdin2byte_vector(Some(&f), 0))
                        }),
                    )
                })
                .collect(),
        );
        g.push(
            texts()
                .into_iter()
                .map(|t| -> Op {
                    (
                        format!("streams of a file with {}", crate::util::show(&t)),
                        Box::new(move |d| {
                            use std::io::{Read, Write};
                            let f = format!("{}/stream", d);
                            let mut w = io::stream_or_stdout(Some(&f));
                            w.write_all(&t).unwrap();
                            w.flush().unwrap();
                            drop(w);
                            let mut v = vec![];
                            let first = io::next_char(&mut io::stream_or_stdin(Some(&f)));
                            io::stream_or_stdin(Some(&f)).read_to_end(&mut v).unwrap();
                            format!("{:?} {:?}", first, v)
                        }),
                    )
                })
                .collect(),
        );
        fn on_numbers(groups: &mut Vec<Vec<Op>>, name: &str, ks: &[usize], f: fn(usize) -> String) {
            groups.push(ks.iter().map(|&k| -> Op { (format!("{}({})", name, k), Box::new(move |_| f(k))) }).collect());
        }
        let ks = &[1, 2, 3, 4, 5, 6, 7, 8, 11, 13];
        let large = &[1, 2, 3, 5, 8, 12, 13, 16, 17, 18, 20, 24, 25, 31, 32, 33, 40, 46, 47, 48, 60, 64, 70];
        on_numbers(g, "fibonacci_number", large, |k| word::fibonacci_number(k as u8).to_string());
        on_numbers(g, "tribonacci_number", large, |k| word::tribonacci_number(k as u8).to_string());
        on_numbers(g, "fibonacci_word", ks, |k| format!("{:?}", word::fibonacci_word(k as u8)));
        on_numbers(g, "tribonacci_word", ks, |k| format!("{:?}", word::tribonacci_word(k as u8)));
        on_numbers(g, "thuemorse_word", ks, |k| format!("{:?}", word::thuemorse_word(k as u8)));
        on_numbers(g, "vtm_word", ks, |k| format!("{:?}", word::vtm_word(k as u8)));
        on_numbers(g, "period_doubling_word", ks, |k| format!("{:?}", word::period_doubling_word(k as u8)));
        on_numbers(g, "fibonacci_lyndonfactor", ks, |k| format!("{:?}", word::fibonacci_lyndonfactor(k as u8)));
        on_numbers(g, "kolakoski_word", ks, |k| format!("{:?}", word::kolakoski_word(k as u8)));
        on_numbers(g, "paperfolding_word", ks, |k| format!("{:?}", word::paperfolding_word(k as u8)));
        on_numbers(g, "quaternary_paperfolding_word", ks, |k| format!("{:?}", word::quaternary_paperfolding_word(k as u8)));
        on_numbers(g, "binary_debruijn_word", &[1, 2, 3, 4, 5, 6, 7, 8], |k| format!("{:?}", word::binary_debruijn_word(k as u8)));
        on_numbers(g, "power2_sequence", ks, |k| format!("{:?}", word::power2_sequence(k as u8)));
        on_numbers(g, "bit_size", &[0, 1, 2, 3, 255, 256, 65535, usize::MAX], |k| format!("{:?}", core::bit_size(k)));
        // calls that refuse their arguments
        fn refused(name: &str, f: fn(&str) -> String) -> Op {
            (name.to_string(), Box::new(f))
        }
        g.push(vec![
            refused("bwt_from_text_by_sa of a text with an inner zero", |_| format!("{:?}", core::bwt_from_text_by_sa(&b"ba\0ab\0".to_vec()))),
            refused("bwt_from_text_by_sa of a text that starts with zero", |_| format!("{:?}", core::bwt_from_text_by_sa(&b"\0ab".to_vec()))),
            refused("bwt_by_matrix of the empty text", |_| format!("{:?}", core::bwt_by_matrix(b""))),
            refused("bbwt_naive of the empty text", |_| format!("{:?}", core::bbwt_naive::<u8>(b""))),
            refused("compute_phi of the empty array", |_| format!("{:?}", core::compute_phi::<i32>(&[]))),
            refused("compute_psv of the empty array", |_| format!("{:?}", core::compute_psv::<u8>(&[]))),
            refused("compute_nsv of the empty array", |_| format!("{:?}", core::compute_nsv::<u8>(&[]))),
            refused("isa_lyndon_factorization of the empty array", |_| format!("{:?}", core::isa_lyndon_factorization(&[]))),
            refused("inverse_permutation of no permutation", |_| format!("{:?}", core::inverse_permutation(&[0i32, 7, 1]))),
            refused("compute_plcp with a position out of range", |_| format!("{:?}", core::compute_plcp(b"abab", &[3, 9, 0]))),
            refused("compute_lcp with a position out of range", |_| format!("{:?}", core::compute_lcp(&[0, 0, 0], &[0i32, 5, 1]))),
            refused("bwt_from_sa with a position out of range", |_| format!("{:?}", core::bwt_from_sa(b"ab", &[0, 1, 7]))),
            refused("is_necklace beyond the end", |_| format!("{:?}", word::is_necklace(&b"aab"[..], 5))),
            refused("fibonacci_number(200)", |_| word::fibonacci_number(200).to_string()),
            refused("tribonacci_number(200)", |_| word::tribonacci_number(200).to_string()),
            refused("fibonacci_word(254)", |_| format!("{:?}", word::fibonacci_word(254))),
            refused("thuemorse_word(64)", |_| format!("{:?}", word::thuemorse_word(64))),
            refused("power2_sequence(64)", |_| format!("{:?}", word::power2_sequence(64))),
            refused("period_doubling_word(64)", |_| format!("{:?}", word::period_doubling_word(64))),
            refused("paperfolding_word(64)", |_| format!("{:?}", word::paperfolding_word(64))),
            refused("file2byte_vector of a missing file", |d| format!("{:?}", io::file2byte_vector(&format!("{}/missing", d), 0))),
            refused("stream_or_stdin of a missing file", |d| format!("{:?}", io::next_char(&mut io::stream_or_stdin(Some(&format!("{}/missing", d)))))),
            refused("stream_or_stdout of a folder", |d| format!("{:?}", io::stream_or_stdout(Some(d)).flush().is_ok())),
            refused("next_char of a failing reader", |_| format!("{:?}", io::next_char(&mut Breaks(0)))),
            refused("read_char of a failing reader", |_| format!("{:?}", io::read_char(&mut Breaks(0)).is_ok())),
            refused("number_of_runs of a failing reader", |_| format!("{:?}", core::number_of_runs(&mut Breaks(3)))),
            refused("duval with a failing comparison", |_| aborted(0, 2)),
            refused("suffixarray_naive with a failing comparison", |_| aborted(5, 3)),
            refused("bbwt_naive with a failing comparison", |_| aborted(4, 6)),
        ]);
        for (i, x) in GENS.iter().enumerate() {
            g.push(
                (1..=STEPS)
                    .map(|m| -> Op {
                        (
                            format!("{} steps of {}", m, x.0),
                            Box::new(move |_| {
                                let mut it = GENS[i].1();
                                format!("{:?}", (0..m).map(|_| it.next()).collect::<Vec<_>>())
                            }),
                        )
                    })
                    .collect(),
            );
        }
        groups
    })
}
fn flat() -> &'static Vec<&'static Op> {
    static FLAT: OnceLock<Vec<&'static Op>> = OnceLock::new();
    FLAT.get_or_init(|| ops().iter().flatten().collect())
}
fn first_of(group: usize) -> usize {
    ops()[..group].iter().map(|g| g.len()).sum()
}
/// the op that makes `m` steps of generator `i`
fn steps_op(i: usize, m: usize) -> usize {
    first_of(ops().len() - GENS.len() + i) + m - 1
}
fn call(i: usize, dir: &str) -> u64 {
    let f = &flat()[i].1;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(dir))).unwrap_or_else(|_| "panics".to_string());
    crate::framework::hash64(&r)
}
/// `mc iso DIR i j k ...`: makes the calls in this order in this process
pub fn iso(args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for a in &args[1..] {
        println!("{}", call(a.parse().unwrap(), &args[0]));
    }
    0
}
fn fresh(dir: &str, seq: &[usize]) -> Result<Vec<u64>, Fail> {
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    let o = std::process::Command::new(std::env::current_exe().map_err(infra)?)
        .arg("iso")
        .arg(dir)
        .args(seq.iter().map(|x| x.to_string()))
        .output()
        .map_err(infra)?;
    let v: Vec<u64> = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.parse().ok()).collect();
    if v.len() < seq.len() {
        return bad(format!(
            "the process ends ({:?}) in call {} of the sequence {}",
            o.status,
            v.len() + 1,
            seq[..=v.len()].iter().rev().take(3).rev().map(|&i| flat()[i].0.clone()).collect::<Vec<_>>().join("; ")
        ));
    }
    Ok(v)
}
/// the result of the call in a fresh process
fn reference(dir: &str, i: usize) -> Result<u64, Fail> {
    static REF: OnceLock<Vec<OnceLock<u64>>> = OnceLock::new();
    let r = &REF.get_or_init(|| (0..flat().len()).map(|_| OnceLock::new()).collect())[i];
    if let Some(x) = r.get() {
        return Ok(*x);
    }
    let x = fresh(dir, &[i])?[0];
    Ok(*r.get_or_init(|| x))
}

/// a choice of calls from as many functions as possible
fn chosen(n: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0.. {
        for (g, x) in ops().iter().enumerate() {
            // of each function first a middle call, then the last ones, then the first ones
            let j = match k {
                0 => x.len() / 2,
                1 => x.len() - 1,
                _ => k - 2,
            };
            if v.len() < n && j < x.len() && (g + k * 7) % 3 != 1 {
                v.push(first_of(g) + j);
            }
        }
        if v.len() >= n {
            return v;
        }
    }
    v
}
fn interleavings(left: &mut [usize], seq: &mut Vec<i64>, f: &mut dyn FnMut(&[i64])) {
    if left.iter().all(|&x| x == 0) {
        f(seq);
        return;
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            seq.push(i as i64);
            interleavings(left, seq, f);
            seq.pop();
            left[i] += 1;
        }
    }
}
fn x40(c: &mut Ctx) {
    let n = flat().len() as i64;
    c.space("all pairs of calls in a fresh process");
    for a in 0..n {
        c.case("pairs", &[a], &[]);
    }
    c.space("calls inside of calls");
    for o in 0..OUTER.len() {
        for w in 0..OUTER_TEXTS.len() {
            for at in 0..looks(o, w) {
                for mode in 0..3 {
                    c.case("nest", &[mode, o as i64, w as i64, at as i64], &[]);
                }
            }
        }
    }
    c.space("triples of calls");
    let v = chosen(c.b(40, 100));
    for &a in &v {
        for &b in &v {
            c.case("triples", &[a as i64, b as i64], &[]);
        }
    }
    c.space("all interleavings of two generators");
    let m = c.b(5, STEPS);
    for a in 0..GENS.len() as i64 {
        for b in 0..GENS.len() as i64 {
            c.case("two", &[m as i64, a, b], &[]);
        }
    }
    c.space("all interleavings of three generators, with calls in between");
    let m = c.b(2, 3);
    for a in [0, 1, 4, 7, 11, 13] {
        for b in [1, 2, 6, 9, 12, 15] {
            for d in [1, 3, 7, 10, 14, 17] {
                for call in [-1, 0, 2, 5, 16, 30] {
                    c.case("three", &[m as i64, a, b, d, call], &[]);
                }
            }
        }
    }
}
/// the calls made inside of others: one of each function, and all that are refused
fn inner() -> &'static Vec<usize> {
    static INNER: OnceLock<Vec<usize>> = OnceLock::new();
    INNER.get_or_init(|| {
        let l = ops().len();
        let refused = l - GENS.len() - 1;
        let mut v = vec![];
        for (g, x) in ops().iter().enumerate() {
            let f = first_of(g);
            if g == refused {
                v.extend(f..f + x.len());
            } else {
                v.push(f + x.len() / 2);
            }
        }
        v
    })
}
fn differ(env: &Env, seq: &[usize], what: usize) -> Fail {
    let names: Vec<String> = seq.iter().map(|&i| flat()[i].0.clone()).collect();
    let text = (flat()[what].1)(env.scratch.to_str().unwrap());
    Fail::Bad(format!(
        "{} gives a result that depends on earlier calls ({}); now it is {}",
        flat()[what].0,
        names.join("; "),
        text.chars().take(200).collect::<String>()
    ))
}
fn j40(env: &mut Env, c: &Case) -> R {
    let dir = env.scratch.to_str().unwrap().to_string();
    let n = flat().len();
    match c.kind.as_str() {
        "pairs" => {
            let a = c.num(0) as usize;
            let mut seq = vec![a];
            for b in 0..n {
                seq.extend([b, a]);
            }
            let got = fresh(&dir, &seq)?;
            for (k, &i) in seq.iter().enumerate() {
                env.steps += 1;
                if got[k] != reference(&dir, i)? {
                    return Err(differ(env, &seq[k.saturating_sub(2)..=k], i));
                }
            }
            env.seen(&(a, got));
        }
        "nest" => {
            let (mode, o, w, at) = (c.num(0), c.num(1) as usize, c.num(2) as usize, c.num(3) as usize);
            let mut want = vec![];
            for &i in inner() {
                want.push(reference(&dir, i)?);
            }
            let what = format!("{} of {}", OUTER[o].0, crate::util::show(OUTER_TEXTS[w]));
            // in a thread of its own, so that a call that never returns is noticed
            let (tx, rx) = std::sync::mpsc::channel::<Result<u64, String>>();
            let (at_dir, at_what) = (dir.clone(), what.clone());
            std::thread::spawn(move || {
                let plain = outer(o, w, usize::MAX, Box::new(|| ()));
                let mut n = 1;
                for (&i, &x) in inner().iter().zip(&want) {
                    let got = std::rc::Rc::new(std::cell::Cell::new(None));
                    let (g, d) = (got.clone(), at_dir.clone());
                    let now: Box<dyn FnMut()> = match mode {
                        0 => Box::new(move || g.set(Some(call(i, &d)))),
                        1 => Box::new(move || {
                            let e = d.clone();
                            g.set(std::thread::spawn(move || call(i, &e)).join().ok())
                        }),
                        _ => Box::new(|| panic!("the symbol cannot be compared")),
                    };
                    let r = outer(o, w, at, now);
                    let when = ["in a comparison of it", "in another thread during a comparison of it", "after a comparison of it has failed"][mode as usize];
                    if mode == 2 {
                        got.set(Some(call(i, &at_dir)));
                    } else if r != plain {
                        let _ = tx.send(Err(format!("{} gives {} instead of {} when {} is called {} (number {})", at_what, r, plain, flat()[i].0, when, at)));
                        return;
                    }
                    if got.get() != Some(x) {
                        let _ = tx.send(Err(format!("{} gives another result {} (number {} of {})", flat()[i].0, when, at, at_what)));
                        return;
                    }
                    n += 2;
                    let _ = tx.send(Ok(1));
                }
                let again = outer(o, w, usize::MAX, Box::new(|| ()));
                let _ = tx.send(if again == plain { Ok(n) } else { Err(format!("{} gives {} instead of {} afterwards", at_what, again, plain)) });
            });
            let mut done = 0;
            loop {
                match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                    Ok(Ok(1)) => {
                        done += 1;
                        crate::util::beat();
                    }
                    Ok(Ok(n)) => {
                        env.steps += n;
                        break;
                    }
                    Ok(Err(e)) => return bad(e),
                    Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => return bad(format!("the thread that calls {} ends", what)),
                    Err(_) => {
                        return bad(format!(
                            "{} does not return when it is called during comparison {} of {}",
                            inner().get(done).map(|&i| flat()[i].0.as_str()).unwrap_or("it"),
                            at,
                            what
                        ))
                    }
                }
            }
            env.seen(&(o, w, at));
        }
        "triples" => {
            let (a, b) = (c.num(0) as usize, c.num(1) as usize);
            for x in chosen(if env.thorough { 100 } else { 40 }) {
                let seq = [a, b, x];
                for &i in &seq {
                    env.steps += 1;
                    let want = reference(&dir, i)?;
                    if call(i, &dir) != want {
                        return Err(differ(env, &seq, i));
                    }
                }
            }
            env.seen(&(a, b));
        }
        _ => {
            let two = c.kind == "two";
            let gens: Vec<usize> = c.nums[1..if two { 3 } else { 4 }].iter().map(|&x| x as usize).collect();
            let m = c.num(0) as usize;
            let between = if two { -1 } else { c.num(4) };
            let mut e = None;
            let mut count = 0;
            let want: Vec<u64> = gens.iter().map(|&g| reference(&dir, steps_op(g, m))).collect::<Result<_, _>>()?;
            let extra = if between >= 0 { first_of(between as usize) } else { 0 };
            let extra_want = if between >= 0 { reference(&dir, extra)? } else { 0 };
            interleavings(&mut vec![m; gens.len()], &mut vec![], &mut |s| {
                if e.is_some() {
                    return;
                }
                count += 1;
                let mut it: Vec<_> = gens.iter().map(|&g| GENS[g].1()).collect();
                let mut out: Vec<Vec<Option<Vec<u8>>>> = vec![vec![]; gens.len()];
                for &i in s {
                    let x = it[i as usize].next();
                    out[i as usize].push(x);
                    if between >= 0 && call(extra, &dir) != extra_want {
                        e = Some(format!("{} gives another result while {} is alive", flat()[extra].0, GENS[gens[0]].0));
                    }
                }
                for (k, &g) in gens.iter().enumerate() {
                    if crate::framework::hash64(&format!("{:?}", out[k])) != want[k] {
                        e = Some(format!(
                            "{} gives {:?} in its steps when they are interleaved with {} in the order {:?}",
                            GENS[g].0,
                            out[k],
                            gens.iter().map(|&g| GENS[g].0).collect::<Vec<_>>().join(" and "),
                            s
                        ));
                    }
                }
            });
            env.steps += count * (m * gens.len()) as u64;
            env.note = Some(format!("{} interleavings", count));
            if let Some(e) = e {
                return bad(e);
            }
            env.seen(&c.nums);
            ensure!(count > 0, "no interleaving");
        }
    }
    Ok(())
}
