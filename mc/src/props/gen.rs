//! The generator of test texts and the bit size of numbers.
use super::*;
use crate::ensure;
use crate::util::show;
use stringology::core;

pub const PROPS: &[Prop] = &[Prop {
    id: "C38",
    explore: x38,
    judge: j38,
    progs: &[],
    what: "numbers; ranges and letter widths",
    bounds: "bit sizes of 0..2^16 (2^20), all 2^i+d with |d| <= 40, all 2^i+2^j and 2^i-2^j, the largest numbers; generator: all ranges a..b with a,b <= 48 (96) and all widths 1..7, ranges starting at 0 up to 2^14 (2^18) and ranges of length up to 300 around every power of two up to 2^40, ranges ending below their beginning; ten more calls after the end; two runs each",
    oracle: "least b with x < 2^b by counting; the shape of the texts",
    fault: false,
}];

fn x38(c: &mut Ctx) {
    c.space("bit sizes");
    for b in 0..c.b(1i64 << 6, 1 << 10) {
        c.case("bits", &[b * 1024, 1024], &[]);
    }
    for i in 0..64 {
        c.case("around", &[i], &[]);
    }
    c.space("all small ranges");
    let m = c.b(48i64, 96);
    for w in 1..=7 {
        for a in 0..=m {
            for b in 0..=m {
                c.case("gen", &[a, b, w], &[]);
            }
        }
    }
    c.space("large ranges");
    for w in 1..=7 {
        for i in 3..=c.b(14, 18) {
            for d in -1..=1 {
                c.case("gen", &[0, (1 << i) + d, w], &[]);
            }
        }
        for i in 3..=40 {
            for d in [-150i64, -2, -1, 0, 1] {
                let a = ((1i64 << i) + d).max(0);
                for l in [0, 1, 2, 3, 10, 300] {
                    c.case("gen", &[a, 2 * a + l, w], &[]);
                }
                c.case("gen", &[a, a, w], &[]);
                c.case("gen", &[a, a - 1, w], &[]);
                c.case("gen", &[a, a / 2, w], &[]);
            }
        }
    }
}
fn bits(x: usize) -> usize {
    let mut b = 0;
    while b < 64 && (x as u128) >= 1u128 << b {
        b += 1;
    }
    b
}
#[allow(clippy::reversed_empty_ranges)]
fn j38(env: &mut Env, c: &Case) -> R {
    let one = |env: &mut Env, x: usize| -> R {
        env.step();
        let got = core::bit_size(x);
        ensure!(got as usize == bits(x), "the bit size of {} is given as {} instead of {}", x, got, bits(x));
        env.seen(&got);
        Ok(())
    };
    match c.kind.as_str() {
        "bits" => {
            for x in c.num(0)..c.num(0) + c.num(1) {
                one(env, x as usize)?;
            }
        }
        "around" => {
            let p = 1usize << c.num(0);
            for d in 0..=40 {
                one(env, p.wrapping_add(d))?;
                one(env, p.wrapping_sub(d))?;
                one(env, usize::MAX - d)?;
            }
            for j in 0..64 {
                one(env, p | 1 << j)?;
                one(env, p.wrapping_sub(1 << j))?;
            }
        }
        _ => {
            let (a, b, w) = (c.num(0), c.num(1), c.num(2) as u8);
            if b < 0 {
                return Ok(());
            }
            let make = || core::RandomStringGenerator::new(a as usize..b as usize, w);
            let what = format!("RandomStringGenerator::new({}..{}, {})", a, b, w);
            // numbers a, a+1, ... with 2*number < b
            let want = ((b + 1) / 2 - a).max(0) as usize;
            let (mut g, mut h) = (make(), make());
            let mut k = 0;
            loop {
                env.step();
                let t = g.next();
                let u = h.next();
                ensure!(t == u, "{} is not reproducible at its text {}", what, k);
                let t = match t {
                    None => break,
                    Some(t) => t,
                };
                ensure!(k < want, "{} yields more than {} texts", what, want);
                ensure!(t.last() == Some(&0), "{}: text {} is {} and does not end with a zero byte", what, k, show(&t));
                let body = &t[..t.len() - 1];
                ensure!(!body.contains(&0), "{}: text {} is {} and contains more than one zero byte", what, k, show(&t));
                ensure!(body.iter().all(|&x| x as usize <= 1 << w), "{}: text {} is {} with a letter beyond 2^{}", what, k, show(&t), w);
                let s = bits(a as usize + k + 1);
                ensure!(body.len() <= s / w as usize, "{}: text {} is {}, longer than {}/{}", what, k, show(&t), s, w);
                env.seen(&t);
                k += 1;
            }
            ensure!(k == want, "{} yields {} texts instead of {}", what, k, want);
            for _ in 0..10 {
                ensure!(g.next().is_none(), "{} goes on after its end", what);
            }
        }
    }
    Ok(())
}
