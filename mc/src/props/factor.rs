use super::*;
use crate::ensure;
use crate::util::show;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        explore: x11,
        judge: j11,
        progs: &["count_z"],
        what: "texts",
        bounds: "all words over 2,3,4 letters up to length 11,8,6 (14,9,8) in byte-boundary embeddings, zero bytes included, all 1-byte and half of (thorough: all) 2-byte words, words u^k and u^k v u^l of all binary words u,v up to length 4, block words, words x u x v over a large alphabet, texts whose references reach back 65535 to 70000 positions, 24 families at every length up to 140 (400) and around powers of two up to 65538 (131074)",
        oracle: "greedy factorization by exhaustive longest-previous-occurrence search (suffix automaton beyond 64 bytes, checked against it); decoder written from the pair format",
        fault: false,
    },
    Prop {
        id: "C12",
        explore: x11,
        judge: j12,
        progs: &["count_lexparse"],
        what: "texts",
        bounds: "the same texts as C11",
        oracle: "phrase lengths from the sorted suffixes by definition; the source of every phrase is the lexicographically preceding suffix; resolution of the sources of every position ends at a letter and yields the text",
        fault: false,
    },
    Prop {
        id: "C13",
        explore: x13,
        judge: j13,
        progs: &["mus"],
        what: "texts",
        bounds: "all zero-free words over 2,3,4 letters up to length 12,8,6 (15,10,8) in byte-boundary embeddings, the empty word, all 1-byte and half of (thorough: all) 2-byte words, powers and block words, families at every length up to 140 (400) and around powers of two up to 65538 (131074)",
        oracle: "occurrence counting by definition (longest repeated prefixes from the reference suffix array for long texts)",
        fault: false,
    },
];

fn x_texts(c: &mut Ctx, zero: bool, dims: (usize, usize, usize)) {
    let (b, t, q) = dims;
    c.space("small words");
    spaces::small(zero, b, t, q, &mut |w| c.case("text", &[0], &[w]));
    spaces::small(zero, 5, 4, 3, &mut |w| c.case("text", &[1], &[w]));
    c.space("two-byte words");
    spaces::byte_pairs(zero, &mut |w| {
        if (w[0] as usize * 7 + w[1] as usize) % c.b(2, 1) == 0 || spaces::related(w[0], w[1]) {
            c.case("text", &[0], &[w])
        }
    });
    c.space("powers and repetitions");
    spaces::words(b"ab", 1, c.b(4, 5), &mut |u| {
        for k in [2usize, 3, 4, 7, 16, 33, 64, 128] {
            c.case("text", &[0], &[&u.repeat(k)]);
        }
        spaces::words(b"ab", 1, 4, &mut |v| {
            for (k, l) in [(1, 1), (2, 1), (1, 2), (3, 2), (5, 5)] {
                c.case("text", &[0], &[&[&u.repeat(k)[..], v, &u.repeat(l)[..]].concat()]);
                c.case("text", &[0], &[&[&u.repeat(k)[..], v, b"c", &u.repeat(l)[..], v].concat()]);
            }
        });
    });
    c.space("block words");
    let e: Vec<usize> = c.b(vec![0, 1, 2, 3, 15, 16, 17, 63, 64, 65], (0..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect());
    for (x, y) in [(b'a', b'b'), (b'b', b'a'), (1, 255)] {
        spaces::blocks(x, y, &e, &mut |w| c.case("text", &[0], &[w]));
    }
    c.space("families");
    spaces::long(c.b(140, 400), c.b(65538, 131074), &mut |w| c.case("text", &[0], &[w]));
    for n in [65536usize, 65537, 65540, 70000] {
        for k in [7, 8, 10, 11, 13, 21, 22] {
            c.case("text", &[0], &[&spaces::family(k, 2 * n)]);
        }
        let far = [&b"z"[..], &spaces::family(9, n - 1), b"zb", &spaces::family(7, 40)].concat();
        c.case("text", &[0], &[&far]);
    }
}
fn x11(c: &mut Ctx) {
    let d = c.b((11, 8, 6), (14, 9, 8));
    x_texts(c, true, d);
}
fn x13(c: &mut Ctx) {
    let d = c.b((12, 8, 6), (15, 10, 8));
    x_texts(c, false, d);
}

/// "(a,b)(c,d)..." as written by count_z and count_lexparse
pub fn parse_pairs(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    let s = std::str::from_utf8(b).ok()?;
    let s = s.trim_end_matches('\n');
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let r = rest.trim_start().strip_prefix('(')?;
        let (x, r) = r.split_once(')')?;
        let (p, l) = x.split_once(',')?;
        v.push((p.trim().parse().ok()?, l.trim().parse().ok()?));
        rest = r;
    }
    Some(v)
}

fn factors_of(env: &mut Env, prog: &str, t: &[u8], chan: i64) -> Result<(usize, usize, Vec<(usize, usize)>), Fail> {
    let f = env.file("factors");
    std::fs::write(&f, b"(#leftover of an earlier run)").map_err(|e| Fail::Infra(e.to_string()))?;
    let r = run_on(env, prog, &opts(&["-o", &f]), t, chan)?;
    expect_ok(prog, &r)?;
    let m = result_fields(&r)?;
    let n: usize = field(&m, "factors")?;
    let len: usize = field(&m, "length")?;
    let b = std::fs::read(&f).map_err(|e| Fail::Infra(e.to_string()))?;
    match parse_pairs(&b) {
        Some(v) => Ok((n, len, v)),
        None => bad(format!("{}: the factor file of {} is not a list of pairs: {}", prog, show(t), show(&b))),
    }
}

fn j11(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if t.is_empty() {
        return Ok(());
    }
    let (n, len, v) = factors_of(env, "count_z", t, c.num(0))?;
    let want = model::lz77(t);
    ensure!(n == want.len(), "count_z of {} reports {} factors instead of {}", show(t), n, want.len());
    ensure!(len == t.len(), "count_z of {} reports length {}", show(t), len);
    ensure!(v.len() == n, "count_z of {} writes {} pairs but reports {} factors", show(t), v.len(), n);
    let mut d: Vec<u8> = vec![];
    for (k, &(p, l)) in v.iter().enumerate() {
        ensure!(l == want[k].1, "count_z of {}: factor {} at position {} has length {} instead of {}", show(t), k, want[k].0, l, want[k].1);
        if l == 0 {
            ensure!(p < 256, "count_z of {}: letter {}", show(t), p);
            d.push(p as u8);
        } else {
            ensure!(p >= 1 && p <= d.len(), "count_z of {}: factor {} has distance {} at position {}", show(t), k, p, d.len());
            for _ in 0..l {
                d.push(d[d.len() - p]);
            }
        }
    }
    ensure!(&d == t, "the factors of {} decode to {}", show(t), show(&d));
    env.seen(&v);
    env.note = Some(format!("{:?}", &v[..v.len().min(8)]));
    Ok(())
}

fn j12(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if t.is_empty() {
        return Ok(());
    }
    let (n, len, v) = factors_of(env, "count_lexparse", t, c.num(0))?;
    let want = model::lexparse(t);
    ensure!(n == want.len(), "count_lexparse of {} reports {} phrases instead of {}", show(t), n, want.len());
    ensure!(len == t.len(), "count_lexparse of {} reports length {}", show(t), len);
    ensure!(v.len() == n, "count_lexparse of {} writes {} pairs but reports {} phrases", show(t), v.len(), n);
    let mut src: Vec<usize> = vec![usize::MAX; t.len()];
    let mut letter: Vec<Option<u8>> = vec![None; t.len()];
    let mut i = 0;
    for (k, &(p, l)) in v.iter().enumerate() {
        ensure!(l == want[k].1, "count_lexparse of {}: phrase {} at position {} has length {} instead of {}", show(t), k, i, l, want[k].1);
        ensure!(p == want[k].2, "count_lexparse of {}: phrase {} is ({},{}) instead of ({},{})", show(t), k, p, l, want[k].2, want[k].1);
        if l == 0 {
            letter[i] = Some(p as u8);
            i += 1;
        } else {
            for j in 0..l {
                src[i + j] = p + j;
            }
            i += l;
        }
    }
    // resolve every position through its sources
    for s in 0..t.len() {
        let mut p = s;
        let mut path = vec![];
        while letter[p].is_none() {
            path.push(p);
            p = src[p];
            ensure!(p < t.len() && path.len() <= t.len(), "count_lexparse of {}: position {} has no resolution", show(t), s);
        }
        ensure!(letter[p] == Some(t[s]), "count_lexparse of {}: position {} resolves to {:?}", show(t), s, letter[p]);
        for q in path {
            letter[q] = letter[p];
        }
    }
    env.seen(&v);
    env.note = Some(format!("{:?}", &v[..v.len().min(8)]));
    Ok(())
}

fn j13(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    let r = run_on(env, "mus", &[], t, c.num(0))?;
    expect_ok("mus", &r)?;
    let m = result_fields(&r)?;
    let s = m.get("mus").cloned().unwrap_or_default();
    let inner = s.trim().strip_prefix('[').and_then(|x| x.strip_suffix(']'));
    let got = inner.and_then(|x| parse_pairs(x.replace("), (", ")(").as_bytes()));
    let got = match got {
        Some(g) => g,
        None => return bad(format!("mus of {}: malformed list {}", show(t), s)),
    };
    let want = model::mus(t);
    ensure!(got == want, "mus of {} reports {:?} instead of {:?}", show(t), got, want);
    let len: usize = field(&m, "length")?;
    ensure!(len == t.len(), "mus of {} reports length {}", show(t), len);
    env.seen(&got);
    env.note = Some(format!("{:?}", &got[..got.len().min(8)]));
    Ok(())
}
