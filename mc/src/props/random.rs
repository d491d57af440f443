//! `randomstring` under all sequences of random draws: the program is built unchanged on a copy of the
//! rand crate whose thread-local generator takes its draws from the explorer.
use super::*;
use crate::ensure;
use crate::util::show;

pub const PROPS: &[Prop] = &[Prop {
    id: "C32",
    explore: x32,
    judge: j32,
    progs: &["randomstring-mc"],
    what: "sequences of random draws x lengths x alphabet bounds",
    bounds: "all draw sequences of length 5 (7) over {0,1,25,61} and of length 4 (5) over {0,26,52,61,62,63} (the last two are rejected by the sampler), continued by a cycle through all 64 values, for bounds 0..4 and 100 and lengths 0..7; all 64 values of one draw at positions 0..3 with every bound 0..3, all pairs of the 64 values of the first two draws with bounds 0,1,2 (thorough: triples over 16 values); draw sequences that present 1..64 letters in ascending, descending, strided order and with repetitions before the first new letter, for every bound 0..66, lengths up to 200 (2000); lengths around powers of two up to 65538 (131074) and 200003 with seven bounds; bounds around 2^8, 2^16, 2^31, 2^32, 2^62; standard output and output file",
    oracle: "length, ASCII alphanumerics, number of distinct letters; agreement with the unbounded string while fewer letters than the bound were used",
    fault: false,
}];

// words: draws (values 0..63); nums: bound, length, output (0 stdout, 1 file)
fn x32(c: &mut Ctx) {
    c.space("all short draw sequences");
    let (l1, l2) = c.b((5, 4), (7, 5));
    let mut f = |c: &mut Ctx, w: &[u8]| {
        for a in [0i64, 1, 2, 3, 4, 100] {
            for p in [0i64, 1, 3, w.len() as i64, 7] {
                c.case("rnd", &[a, p, 0], &[w]);
            }
        }
    };
    spaces::words(&[0, 1, 25, 61], l1, l1, &mut |w| f(c, w));
    spaces::words(&[0, 26, 52, 61, 62, 63], l2, l2, &mut |w| f(c, w));
    c.space("all values of single draws and pairs");
    for v in 0..64u8 {
        for a in 0..=3 {
            for pos in 0..4 {
                let mut w = vec![5u8, 5, 9, 5];
                w[pos] = v;
                c.case("rnd", &[a, 4, 0], &[&w]);
            }
        }
        for u in 0..64u8 {
            for a in 0..=2 {
                c.case("rnd", &[a, 2 + a, 0], &[&[v, u]]);
            }
        }
    }
    if c.thorough {
        let some: Vec<u8> = (0..16).map(|i| i * 4 + i / 6).collect();
        spaces::words(&some, 3, 3, &mut |w| {
            for a in 0..=3 {
                c.case("rnd", &[a, 5, 0], &[w]);
            }
        });
    }
    c.space("every letter is possible everywhere");
    for pos in 0..c.b(6, 20) {
        c.case("reach", &[pos], &[]);
    }
    c.space("many letters and bounds");
    let max = c.b(200i64, 2000);
    for a in 0..=66i64 {
        for (k, p) in [(0, 10i64), (0, 63), (1, 64), (2, max), (3, 130), (4, max)] {
            let w: Vec<u8> = (0..max as usize)
                .map(|i| match k {
                    0 => (i % 64) as u8,
                    1 => (63 - i % 64) as u8,
                    2 => (i * 17 % 64) as u8,
                    3 => (i / 3 % 64) as u8,
                    _ => (i * i % 64) as u8,
                })
                .collect();
            c.case("rnd", &[a, p, a % 2], &[&w]);
            c.case("rnd", &[a, 61 + a % 4, 1 - a % 2], &[&w]);
        }
    }
    c.space("long strings, large bounds");
    let w: Vec<u8> = (0..300).map(|i| (i * 17 % 64) as u8).collect();
    for p in spaces::thresholds(c.b(65538, 131074)).into_iter().chain([200003]) {
        if p > 130 {
            for a in [0, 1, 2, 26, 61, 62, 63] {
                c.case("rnd", &[a, p as i64, (p + a as usize) as i64 % 2], &[&w]);
            }
        }
    }
    for i in [8, 16, 31, 32, 33, 62] {
        for d in -1..=3 {
            for p in [5, 70, 300] {
                c.case("rnd", &[(1i64 << i) + d, p, p % 2], &[&w]);
            }
        }
    }
}
fn draw(env: &mut Env, draws: &[u8], a: i64, p: i64, out: i64) -> Result<(String, Vec<u8>), Fail> {
    let (a, p) = (a.to_string(), p.to_string());
    let f = env.file("rnd");
    let mut args = vec!["-a", &a, "-p", &p];
    if out == 1 {
        std::fs::write(&f, b"previous content, longer than most of the strings ...............................").map_err(|e| Fail::Infra(e.to_string()))?;
        args.extend(["-o", &f]);
    }
    let what = format!("randomstring {} on the draws {:?}", args.join(" "), draws);
    let mut r = Req::new(&args, b"");
    let s: String = draws.iter().map(|d| (b'0' + (d & 63)) as char).collect();
    r.env.push(format!("MC_DRAWS={}", s));
    let o = env.run("randomstring-mc", &r)?;
    expect_ok(&what, &o)?;
    if out == 1 {
        ensure!(o.stdout.is_empty(), "{}: also on standard output: {}", what, show(&o.stdout));
        let b = std::fs::read(&f).map_err(|e| Fail::Bad(e.to_string()))?;
        Ok((what, b))
    } else {
        Ok((what, o.stdout))
    }
}
fn j32(env: &mut Env, c: &Case) -> R {
    if c.kind == "reach" {
        // with all other draws fixed, the 64 values of one draw lead to all 62 letters
        let pos = c.num(0) as usize;
        let mut set = std::collections::BTreeSet::new();
        for v in 0..64u8 {
            let mut w = vec![7u8; pos + 1];
            w[pos] = v;
            let (what, s) = draw(env, &w, 0, pos as i64 + 1, 0)?;
            ensure!(s.len() == pos + 1, "{}: {}", what, show(&s));
            set.insert(s[pos]);
        }
        ensure!(set.len() == 62, "randomstring -a 0: only {} letters at position {}: {:?}", set.len(), pos, set);
        return Ok(());
    }
    let (a, p) = (c.num(0), c.num(1));
    let draws = &c.words[0];
    let (what, s) = draw(env, draws, a, p, c.num(2))?;
    ensure!(s.len() == p as usize, "{}: length {} instead of {}: {}", what, s.len(), p, show(&s));
    ensure!(s.iter().all(|x| x.is_ascii_alphanumeric()), "{}: not alphanumeric: {}", what, show(&s));
    let mut set = std::collections::BTreeSet::new();
    let free = if a == 0 { s.clone() } else { draw(env, draws, 0, p, 0)?.1 };
    ensure!(free.len() == s.len(), "{}: the unbounded string is {}", what, show(&free));
    for i in 0..s.len() {
        ensure!(
            a > 0 && set.len() >= a as usize || s[i] == free[i],
            "{}: {} differs at position {} from the unbounded string {}, although only {} letters were used",
            what,
            show(&s),
            i,
            show(&free),
            set.len()
        );
        set.insert(s[i]);
    }
    ensure!(a == 0 || set.len() <= a as usize, "{}: {} distinct letters in {}", what, set.len(), show(&s));
    env.seen(&s);
    Ok(())
}
