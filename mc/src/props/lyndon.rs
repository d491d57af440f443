use super::*;
use crate::ensure;
use crate::util::show;
use stringology::{core, word};

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C05",
        explore: x05,
        judge: j05,
        progs: &["lyndonfactorization"],
        what: "inputs and options",
        bounds: "library (Duval over bytes and wide integers, inverse suffix array variant) on all words over 2,3,4 letters up to length 15,9,7 (18,11,9), zero bytes included, all 2-byte words, products of all pairs/triples of short Lyndon words, families at every length up to 300 and around powers of two up to 65538 (131074); program (RESULT, -o file, RUST_LOG=debug log) on all words over 2,3 letters up to 9,6 (12,8), words ending in zero bytes, families up to length 140 (300) and at thresholds up to 65538 (131074)",
        oracle: "longest-Lyndon-prefix factorization by definition; left-to-right minima of the suffix rank for long texts",
        fault: false,
    },
    Prop {
        id: "C06",
        explore: x06,
        judge: j06,
        progs: &[],
        what: "inputs and options",
        bounds: "all non-empty words over 2,3,4 letters up to length 16,10,8 (19,12,9), zero bytes included, all 2-byte words, powers of all binary words up to length 7, families at every length up to 300 and thresholds up to 65538 (131074); conjugate iteration on all words over 2,3 letters up to length 12,8 (14,9) and families at every length up to 140 (260) and thresholds up to 514 (1026) and at 1025, 4097, 16385, 65537, called again after its end",
        oracle: "minimum over all rotations (cyclic prefix doubling for long texts); explicit rotations",
        fault: false,
    },
    Prop {
        id: "C07",
        explore: x07,
        judge: j07,
        progs: &[],
        what: "inputs and options",
        bounds: "all words (including the empty one for the border array) over 2,3,4 letters up to length 18,11,9 (22,14,11), bytes and wide integers, all 2-byte words, powers u^k v of all binary words u up to length 6, families at every length up to 160 (400) and thresholds up to 65538 (131074)",
        oracle: "longest proper border, least period and power test by definition",
        fault: false,
    },
    Prop {
        id: "C08",
        explore: x08,
        judge: j08,
        progs: &[],
        what: "inputs and options",
        bounds: "all words over 2,3,4 letters up to length 17,11,8 (20,13,10) and every prefix length n of each, as slice, vector and (wrapped-around) deque; byte embeddings, all 2-byte words; families and powers at every length up to 300 (600) and thresholds up to 8194 (65538), least rotations and powers of short words with one letter changed, left out or doubled at lengths up to 65537 (131073), five families at 100001, 131073, 1048577",
        oracle: "existence of a Lyndon word whose power has the sequence as prefix (by definition)",
        fault: false,
    },
];

fn x05(c: &mut Ctx) {
    c.space("library: small words");
    let (b, t, q) = c.b((15, 9, 7), (18, 11, 9));
    spaces::small(true, b, t, q, &mut |w| c.case("lib", &[], &[w]));
    spaces::byte_pairs(true, &mut |w| c.case("lib", &[], &[w]));
    c.space("library: products of Lyndon words");
    let ly = model::lyndon_words(c.b(4, 6), 2);
    for u in &ly {
        for v in &ly {
            for (i, j) in [(1usize, 1usize), (2, 1), (1, 2), (3, 2), (2, 3)] {
                let w: Vec<u8> = [u.repeat(i), v.repeat(j)].concat().iter().map(|x| x + b'a').collect();
                c.case("lib", &[], &[&w]);
            }
        }
    }
    c.space("program: small words");
    let (b, t) = c.b((9, 6), (12, 8));
    for a in [&b"ab"[..], b"\x00\xff"] {
        spaces::words(a, 1, b, &mut |w| c.case("prog", &[0, 0], &[w]));
    }
    spaces::words(b"abc", 1, t, &mut |w| c.case("prog", &[0, 0], &[w]));
    spaces::words(b"\x00ab", 1, 5, &mut |w| c.case("prog", &[1, 0], &[w]));
    spaces::words(b"abcd", 1, 4, &mut |w| c.case("prog", &[1, 0], &[w]));
    spaces::words(b"a\n", 1, 5, &mut |w| c.case("prog", &[0, 0], &[w]));
    for x in 0..=255u8 {
        for y in [0u8, 10, 97, 128, 255] {
            c.case("prog", &[0, 0], &[&[x, y]]);
        }
    }
    c.space("program: families");
    spaces::long(c.b(140, 300), c.b(65538, 131074), &mut |w| {
        c.case("prog", &[0, 0], &[w]);
        c.case("prog", &[1, 0], &[&[w, b"\0"].concat()]);
    });
    c.space("library: families");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| c.case("lib", &[], &[w]));
}
fn j05(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if t.is_empty() {
        return Ok(());
    }
    let want = model::lyndon(t);
    if c.kind == "lib" {
        env.step();
        let got = core::duval(t);
        ensure!(got == want, "Lyndon factorization of {} is {:?} instead of {:?}", show(t), trim(&got), trim(&want));
        let s = model::sa(t);
        let mut isa = vec![0i32; t.len()];
        for (r, &p) in s.iter().enumerate() {
            isa[p] = r as i32;
        }
        env.step();
        let got = core::isa_lyndon_factorization(&isa);
        ensure!(got == want, "Lyndon factorization by inverse suffix array of {} is {:?} instead of {:?}", show(t), trim(&got), trim(&want));
        if t.len() <= 10 {
            let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 70_000_000).collect();
            env.step();
            let got = core::duval(&wide);
            ensure!(got == want, "Lyndon factorization over integers {:?} is {:?} instead of {:?}", wide, got, want);
            let strs: Vec<String> = t.iter().map(|&x| format!("{:03}", x)).collect();
            env.step();
            let got = core::duval(&strs);
            ensure!(got == want, "Lyndon factorization over strings {:?} is {:?} instead of {:?}", strs, got, want);
        }
        env.seen(&want);
        return Ok(());
    }
    let out = env.file("lyn");
    std::fs::write(&out, [b'#'; 50]).map_err(|e| Fail::Infra(e.to_string()))?;
    let o = opts(&["-o", &out]);
    let r = {
        let mut args: Vec<String> = o.clone();
        if c.num(0) == CH_FILE {
            let f = env.file("in");
            std::fs::write(&f, t).map_err(|e| Fail::Infra(e.to_string()))?;
            args.extend(opts(&["-i", &f]));
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let mut req = Req::new(&a, if c.num(0) == CH_FILE { b"" } else { t });
        req.env = vec!["RUST_LOG=debug".into()];
        env.run("lyndonfactorization", &req)?
    };
    expect_ok("lyndonfactorization", &r)?;
    let m = result_fields(&r)?;
    let f: usize = field(&m, "factors")?;
    ensure!(f == want.len(), "lyndonfactorization of {} reports {} factors instead of {}", show(t), f, want.len());
    let l: usize = field(&m, "length")?;
    ensure!(l == t.len(), "lyndonfactorization of {} reports length {} instead of {}", show(t), l, t.len());
    // the debug log lists the ending positions
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    let list = format!("{:?}", want);
    ensure!(err.contains(&list), "debug log of lyndonfactorization for {} does not list {}: {}", show(t), &list[..list.len().min(200)], err.chars().take(300).collect::<String>());
    // the factor file
    let mut file = b">Factor 1\n".to_vec();
    file.extend(&t[..want[0] + 1]);
    for i in 1..want.len() {
        if i + 1 == want.len() && want[i] == want[i - 1] + 1 && t[want[i]] == 0 {
            break;
        }
        file.extend(format!("\n>Factor {} : {} -> {}\n", i + 1, want[i - 1] + 1, want[i] + 1).bytes());
        file.extend(&t[want[i - 1] + 1..want[i] + 1]);
    }
    let got = std::fs::read(&out).map_err(|e| Fail::Infra(e.to_string()))?;
    ensure!(got == file, "factor file of {} is {} instead of {}", show(t), show(&got), show(&file));
    env.seen(&file);
    env.note = Some(format!("{:?}", trim(&want)));
    // the plain run (no -o, no logging) prints the same numbers and nothing else
    let r2 = run_on(env, "lyndonfactorization", &[], t, 0)?;
    expect_ok("lyndonfactorization", &r2)?;
    let m = result_fields(&r2)?;
    ensure!(field::<usize>(&m, "factors")? == want.len(), "factors without -o: {}", r2.describe());
    Ok(())
}
pub fn trim<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().take(20).cloned().collect()
}

fn x06(c: &mut Ctx) {
    c.space("least conjugate: small words");
    let (b, t, q) = c.b((16, 10, 8), (19, 12, 9));
    spaces::small(true, b, t, q, &mut |w| c.case("least", &[], &[w]));
    spaces::byte_pairs(true, &mut |w| c.case("least", &[], &[w]));
    c.space("least conjugate: powers");
    spaces::words(b"ab", 1, c.b(7, 9), &mut |u| {
        for k in [2usize, 3, 4, 5, 8, 16, 50] {
            c.case("least", &[], &[&u.repeat(k)]);
            c.case("least", &[], &[&[&u.repeat(k)[..], &u[..u.len() / 2]].concat()]);
        }
    });
    c.space("conjugate iteration");
    let (b, t) = c.b((12, 8), (14, 9));
    spaces::words(b"ab", 0, b, &mut |w| c.case("iter", &[], &[w]));
    spaces::words(b"\0a\xff", 1, t, &mut |w| c.case("iter", &[], &[w]));
    spaces::long(c.b(140, 260), c.b(514, 1026), &mut |w| c.case("iter", &[], &[w]));
    for n in c.b(vec![1025, 4097, 16385, 65537], vec![1025, 2049, 4097, 8193, 16385, 32769, 65537, 65538]) {
        for k in if n < 5000 { vec![2, 5, 10, 21] } else { vec![10] } {
            c.case("iter", &[], &[&spaces::family(k, n)]);
        }
    }
    c.space("least conjugate: families");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| c.case("least", &[], &[w]));
}
fn j06(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if c.kind == "iter" {
        let mut it = core::ConjugateIterator::new(t);
        for i in 0..t.len() {
            env.step();
            let g = it.next();
            let want = model::rotate(t, i);
            ensure!(g.as_deref() == Some(&want[..]), "conjugate {} of {} is {:?}", i, show(t), g.map(|x| show(&x)));
        }
        for _ in 0..3 {
            env.step();
            let g = it.next();
            ensure!(g.is_none(), "conjugate iteration of {} does not end: {:?}", show(t), g.map(|x| show(&x)));
        }
        if t.len() <= 12 {
            match walks(&|| core::ConjugateIterator::new(t), 100) {
                Ok(steps) => env.steps += steps,
                Err(e) => return bad(format!("conjugates of {}: {}", show(t), e)),
            }
        }
        let wide: Vec<i64> = t.iter().map(|&x| x as i64 - 300).collect();
        let n = core::ConjugateIterator::new(&wide).take(t.len() + 5).count();
        ensure!(n == t.len(), "{} conjugates of an integer word of length {}", n, t.len());
        env.seen(&t);
        return Ok(());
    }
    if t.is_empty() {
        return Ok(());
    }
    env.step();
    let k = core::lyndon_conjugate(t);
    ensure!(k < t.len(), "lyndon_conjugate({}) = {} is not a position", show(t), k);
    let got = model::rotate(t, k);
    let want = model::least_rotation_long(t);
    ensure!(got == want, "lyndon_conjugate({}) = {} gives {} instead of {}", show(t), k, show(&got), show(&want));
    if t.len() <= 9 {
        let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 70_000_000).collect();
        env.step();
        let k = core::lyndon_conjugate(&wide);
        ensure!(k < t.len() && model::rotate(t, k) == want, "lyndon_conjugate over integers {:?} = {}", wide, k);
    }
    env.seen(&(k, t.len()));
    env.note = Some(format!("start {}", k));
    Ok(())
}

fn x07(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((18, 11, 9), (22, 14, 11));
    spaces::small(true, b, t, q, &mut |w| c.case("lib", &[], &[w]));
    spaces::byte_pairs(true, &mut |w| c.case("lib", &[], &[w]));
    c.space("powers");
    spaces::words(b"ab", 1, c.b(6, 8), &mut |u| {
        for k in [2usize, 3, 4, 5, 8, 17, 32] {
            let p = u.repeat(k);
            c.case("lib", &[], &[&p]);
            for cut in 1..u.len() {
                c.case("lib", &[], &[&[&p[..], &u[..cut]].concat()]);
            }
            c.case("lib", &[], &[&[&p[..], b"c"].concat()]);
            c.case("lib", &[], &[&[&p[..], b"c", &p[..]].concat()]);
        }
    });
    c.space("families");
    spaces::long(c.b(160, 400), c.b(65538, 131074), &mut |w| c.case("lib", &[], &[w]));
}
fn j07(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    check07(env, t, t)?;
    if t.len() <= 9 {
        let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 70_000_000).collect();
        check07(env, &wide, t)?;
    }
    Ok(())
}
fn check07<T: Eq + std::fmt::Debug>(env: &mut Env, t: &[T], orig: &[u8]) -> R {
    let n = t.len();
    env.step();
    let b = core::border_array(t);
    ensure!(b.len() == n + 1, "border array of {} has {} entries", show(orig), b.len());
    let mut z: Vec<usize> = vec![0; n + 1];
    if n <= 40 {
        for i in 1..=n {
            z[i] = model::border_naive(t, i);
        }
    } else {
        // borders from the Z-function of the byte text: i has border l iff z[i-l] >= l
        let zf = model::z_function(orig);
        let mut done = 0;
        for p in 1..n {
            // the leftmost start gives the longest border
            for i in done.max(p) + 1..=p + zf[p] {
                z[i] = i - p;
                done = i;
            }
        }
    }
    for i in 1..=n {
        ensure!(b[i] == z[i], "border array of {}: entry {} is {} instead of {}", show(orig), i, b[i], z[i]);
    }
    env.seen(&b);
    if n == 0 {
        return Ok(());
    }
    env.step();
    let p = core::smallest_period(&b);
    let want = n - z[n];
    if n <= 200 {
        ensure!(want == model::least_period(t), "model");
    }
    ensure!(p == want, "smallest period of {} is {} instead of {}", show(orig), p, want);
    env.step();
    let pr = core::is_primitive(t);
    let wp = if n <= 200 { model::is_primitive(t) } else { want == n || n % want != 0 };
    ensure!(pr == wp, "is_primitive({}) = {}", show(orig), pr);
    env.note = Some(format!("period {} primitive {}", p, pr));
    Ok(())
}

fn x08(c: &mut Ctx) {
    c.space("small words, all prefix lengths");
    let (b, t, q) = c.b((17, 11, 8), (20, 13, 10));
    spaces::small(true, b, t, q, &mut |w| c.case("neck", &[0], &[w]));
    spaces::byte_pairs(true, &mut |w| c.case("neck", &[0], &[w]));
    c.space("powers and families");
    spaces::words(b"ab", 1, c.b(6, 8), &mut |u| {
        for k in [2usize, 3, 5, 9, 20] {
            let p = u.repeat(k);
            c.case("neck", &[0], &[&p]);
            c.case("neck", &[0], &[&[&p[..], b"b"].concat()]);
            c.case("neck", &[0], &[&[&p[..], b"a"].concat()]);
        }
    });
    for n in (1..=c.b(300usize, 600)).chain(spaces::thresholds(c.b(8194, 65538)).into_iter().filter(|&n| n > 600).chain([65537])) {
        for k in 0..spaces::FAMILIES {
            let t = model::least_rotation_long(&spaces::family(k, n));
            c.case("neck", &[1], &[&t]);
            c.case("neck", &[1], &[&spaces::family(k, n)]);
        }
    }
    c.space("necklaces with a defect");
    let l: Vec<usize> = c.b(vec![257, 1001, 4097, 65537], vec![257, 513, 1001, 4097, 8193, 32769, 65537, 131073]);
    spaces::late(&l, &mut |w| c.case("neck", &[1], &[w]));
    for n in c.b(vec![300, 5000, 65537], vec![257, 300, 1000, 5000, 20000, 65537, 131073]) {
        for k in if n > 50_000 { vec![0, 5, 9, 10, 11, 14, 15] } else { (0..spaces::FAMILIES).collect() } {
            let t = spaces::family(k, n);
            for p in [1, n / 2, n - 2, n - 1] {
                for d in [1, 255] {
                    c.case("defect", &[1, p as i64, d], &[&t]);
                }
            }
        }
    }
    for n in c.b(vec![100_001, 131_073, 1_048_577], vec![100_001, 131_073, 200_003, 262_145, 1_048_577, 2_097_153]) {
        for k in [0, 3, 5, 10, 21] {
            c.case("defect", &[1, 0, 0], &[&spaces::family(k, n)]);
        }
    }
}
fn j08(env: &mut Env, c: &Case) -> R {
    let mut t = &c.words[0];
    let changed: Vec<u8>;
    if c.kind == "defect" {
        // the least rotation with one letter changed
        let mut v = model::least_rotation_long(t);
        let p = c.num(1) as usize;
        v[p] = v[p].wrapping_add(c.num(2) as u8);
        changed = v;
        t = &changed;
    }
    let ns: Vec<usize> = if c.num(0) == 0 { (1..=t.len()).collect() } else { vec![t.len(), (t.len() + 1) / 2] };
    for n in ns {
        if n == 0 {
            continue;
        }
        let want = model::is_prenecklace(&t[..n]);
        env.step();
        let a = word::is_necklace(&t[..], n);
        ensure!(a == want, "is_necklace({}, {}) = {} on a slice", show(t), n, a);
        env.step();
        let b = word::is_necklace(t, n);
        ensure!(b == want, "is_necklace({}, {}) = {} on a vector", show(t), n, b);
        // a deque whose contents wrap around in its ring buffer
        let mut d: std::collections::VecDeque<u8> = std::collections::VecDeque::with_capacity(t.len() + 1);
        for _ in 0..t.len() / 2 + 1 {
            d.push_back(7);
        }
        for _ in 0..t.len() / 2 + 1 {
            d.pop_front();
        }
        d.extend(t.iter());
        env.step();
        let e = word::is_necklace(&d, n);
        ensure!(e == want, "is_necklace({}, {}) = {} on a deque", show(t), n, e);
        if c.num(0) == 0 && t.len() <= 8 {
            let w = &t[..n];
            // the two consequences named in the property
            if model::least_rotation_value(w) == w {
                ensure!(a, "least rotation {} rejected", show(w));
            }
            if (1..n).any(|i| w[i..] < w[..n - i]) {
                ensure!(!a, "{} accepted although a suffix is smaller", show(w));
            }
        }
        env.seen(&(n, want));
    }
    env.note = Some(format!("{}", model::is_prenecklace(t)));
    Ok(())
}
