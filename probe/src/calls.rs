//! The public functions of the library, each called with arguments derived from a text or from a number; what they
//! return is rendered as text, a call that panics as `refused`. Shared by the explorer (built with debug assertions and
//! overflow checks) and by release-probe (built with the release profile).
use std::panic::{catch_unwind, AssertUnwindSafe};
use stringology::{core, io, word};

type Calls = Vec<(&'static str, String)>;

fn add(v: &mut Calls, name: &'static str, f: impl FnOnce() -> String) {
    let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "refused".to_string());
    v.push((name, r));
}
fn zero(t: &[u8]) -> Vec<u8> {
    [t, &b"\0"[..]].concat()
}
fn sa(t: &[u8]) -> Vec<i32> {
    let mut s: Vec<i32> = (0..t.len() as i32).collect();
    s.sort_by(|&a, &b| t[a as usize..].cmp(&t[b as usize..]));
    s
}
fn some<T>(it: impl Iterator<Item = T>) -> Vec<T> {
    it.take(600).collect()
}

/// calls for a text without zero bytes
pub fn on_text(t: &[u8]) -> Calls {
    let mut v = vec![];
    let v = &mut v;
    let n = t.len();
    let short = &t[..n.min(60)];
    let z = zero(t);
    let s = sa(&z);
    let ranks: Vec<i32> = {
        let mut r = vec![0i32; s.len()];
        for (i, &x) in s.iter().enumerate() {
            r[x as usize] = i as i32;
        }
        r
    };
    let wide: Vec<u64> = t.iter().map(|&c| (c as u64) << 40).collect();
    add(v, "bwt_from_text_by_sa", || format!("{:?}", core::bwt_from_text_by_sa(&z)));
    add(v, "bwt_from_sa", || {
        let u: Vec<usize> = s.iter().map(|&x| x as usize).collect();
        format!("{:?}", core::bwt_from_sa(&z, &u))
    });
    add(v, "compute_phi", || format!("{:?}", core::compute_phi(&s)));
    add(v, "inverse_permutation", || format!("{:?}", core::inverse_permutation(&s)));
    add(v, "compute_plcp", || format!("{:?}", core::compute_plcp(&z, &core::compute_phi(&s))));
    add(v, "compute_lcp", || {
        format!("{:?}", core::compute_lcp(&core::compute_plcp(&z, &core::compute_phi(&s)), &s))
    });
    add(v, "isa_lyndon_factorization", || format!("{:?}", core::isa_lyndon_factorization(&ranks)));
    add(v, "compute_psv", || format!("{:?}", core::compute_psv(t)));
    add(v, "compute_nsv", || format!("{:?}", core::compute_nsv(t)));
    add(v, "compute_psv of ranks", || format!("{:?}", core::compute_psv(&ranks)));
    add(v, "compute_nsv of ranks", || format!("{:?}", core::compute_nsv(&ranks)));
    add(v, "duval", || format!("{:?}", core::duval(t)));
    add(v, "duval over numbers", || format!("{:?}", core::duval(&wide)));
    add(v, "border_array", || format!("{:?}", core::border_array(t)));
    add(v, "smallest_period", || format!("{:?}", core::smallest_period(&core::border_array(t))));
    add(v, "is_primitive", || format!("{:?}", core::is_primitive(&t[..n.min(3000)])));
    add(v, "lyndon_conjugate", || format!("{:?}", core::lyndon_conjugate(t)));
    add(v, "number_of_runs", || format!("{:?}", core::number_of_runs(&mut &t[..])));
    add(v, "read_char", || {
        let mut r = t;
        let mut w: Vec<u8> = vec![];
        while let Ok(c) = io::read_char(&mut r) {
            w.push(c);
        }
        format!("{:?} {:?}", w, io::next_char(&mut r))
    });
    add(v, "is_necklace", || {
        let w: Vec<u8> = t.to_vec();
        format!("{:?}", (1..=n.min(60)).map(|k| word::is_necklace(&w, k)).collect::<Vec<_>>())
    });
    add(v, "bwt_by_matrix_naive", || format!("{:?}", core::bwt_by_matrix_naive(short)));
    add(v, "bwt_by_matrix", || format!("{:?}", core::bwt_by_matrix(short)));
    add(v, "bbwt_naive", || format!("{:?}", core::bbwt_naive(short)));
    add(v, "suffixarray_naive", || format!("{:?}", core::suffixarray_naive(short)));
    add(v, "ConjugateIterator", || format!("{:?}", some(core::ConjugateIterator::new(short))));
    std::mem::take(v)
}

/// calls for a number; words are asked for only where they are short or do not fit into memory at all
pub fn on_number(k: usize) -> Calls {
    let mut v = vec![];
    let v = &mut v;
    add(v, "bit_size", || format!("{:?}", core::bit_size(k)));
    add(v, "RandomStringGenerator", || {
        let g = |r: std::ops::Range<usize>| (1..=7).map(|w| some(core::RandomStringGenerator::new(r.clone(), w))).collect::<Vec<_>>();
        let k = k.min(1 << 40);
        format!("{:?}", (g(0..k), g(k / 3..k), g(k..2 * k + 9)))
    });
    if k > 255 {
        return std::mem::take(v);
    }
    let b = k as u8;
    add(v, "fibonacci_number", || word::fibonacci_number(b).to_string());
    add(v, "tribonacci_number", || word::tribonacci_number(b).to_string());
    for m in 1..=4usize {
        if k >= 1 && k <= 8 {
            add(v, "LyndonWordGenerator", || format!("{:?}", some(core::LyndonWordGenerator::new(k, m))));
        }
    }
    if (1..=256).contains(&k) {
        add(v, "LyndonWordGenerator of short words", || {
            format!("{:?}", (some(core::LyndonWordGenerator::new(1, k)), some(core::LyndonWordGenerator::new(2, k))))
        });
        add(v, "LyndonWordGenerator of long words", || format!("{:?}", some(core::LyndonWordGenerator::new(k, 2))));
    }
    if k <= 64 {
        add(v, "BinaryStringGenerator", || format!("{:?}", some(core::BinaryStringGenerator::new(b))));
    }
    add(v, "morphisms", || {
        format!(
            "{:?}",
            [
                word::thuemorse_morphism(b),
                word::fibonacci_morphism(b),
                word::tribonacci_morphism(b),
                word::vtm_morphism(b),
                word::fibonacci_lyndonfactor_morphism(b)
            ]
        )
    });
    let words: &[(&'static str, fn(u8) -> Vec<u8>)] = &[
        ("fibonacci_word", word::fibonacci_word),
        ("tribonacci_word", word::tribonacci_word),
        ("thuemorse_word", word::thuemorse_word),
        ("vtm_word", word::vtm_word),
        ("period_doubling_word", word::period_doubling_word),
        ("fibonacci_lyndonfactor", word::fibonacci_lyndonfactor),
        ("kolakoski_word", word::kolakoski_word),
        ("paperfolding_word", word::paperfolding_word),
        ("quaternary_paperfolding_word", word::quaternary_paperfolding_word),
        ("binary_debruijn_word", word::binary_debruijn_word),
        ("power2_sequence", word::power2_sequence),
    ];
    if (1..=10).contains(&k) {
        for (n, f) in words {
            add(v, n, || format!("{:?}", f(b)));
        }
    }
    std::mem::take(v)
}
