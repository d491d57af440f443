use super::*;
use crate::ensure;
use crate::util::show;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        explore: x14,
        judge: j14,
        progs: &["entropy"],
        what: "texts, orders and prefix lengths",
        bounds: "every order 0..n+2 on all zero-free words over 2,3,4 letters up to length 7,5,4 (9,6,5), orders 0..3 on all such words up to length 9,6,5 (11,8,6), huge orders up to 2^64-1, all 1-byte words, families and block words at every length up to 60 (160) with orders 0..9, n-2..n+2 and around thresholds up to 65538 (131074) with orders 0,1,2,3,5,8,16,64,255,256; all prefix lengths of all words up to length 6",
        oracle: "k-th order empirical entropy by definition over the occurrences of each context, absolute tolerance 1e-9",
        fault: false,
    },
    Prop {
        id: "C15",
        explore: x15,
        judge: j15,
        progs: &["entropy_kmer"],
        what: "texts, orders and prefix lengths",
        bounds: "orders 1..7 on all zero-free words over 2,3,4 letters up to length 8,6,5 (11,8,6), all 1-byte words, words over the byte pairs that collide under truncation or sign extension of a 64-bit window, families and block words at every length up to 60 (160) and around thresholds up to 65538 (131074); refused orders 0,8,9,10,16,64,2^32+1,2^64-1; all prefix lengths of all words up to length 6",
        oracle: "definition as in C14, tolerance 1e-9",
        fault: false,
    },
];

fn base_texts(c: &mut Ctx, dense: usize, far: usize, f: &mut dyn FnMut(&mut Ctx, &[u8])) {
    let e: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 20, 64];
    c.space("block words");
    spaces::blocks(b'a', b'b', &e, &mut |w| f(c, w));
    spaces::blocks(0xff, 1, &e, &mut |w| f(c, w));
    c.space("families");
    spaces::long(dense, far, &mut |w| f(c, w));
}
fn x14(c: &mut Ctx) {
    c.space("every order up to n+2");
    let (b, t, q) = c.b((7, 5, 4), (9, 6, 5));
    spaces::small(false, b, t, q, &mut |w| {
        for k in 0..=w.len() as i64 + 2 {
            c.case("ent", &[k, 0, 0], &[w]);
        }
    });
    c.space("small words, orders 0..3");
    let (b, t, q) = c.b((9, 6, 5), (11, 8, 6));
    spaces::small(false, b, t, q, &mut |w| {
        for k in 0..=3 {
            c.case("ent", &[k, 0, 0], &[w]);
        }
    });
    c.space("huge orders");
    spaces::words(b"ab", 1, 4, &mut |w| {
        for k in [1000, 65535, 65536, (1 << 31) - 1, 1 << 31, (1i64 << 32) - 1, 1 << 32, i64::MAX, -1, -2] {
            c.case("ent", &[k, 0, 0], &[w]);
        }
    });
    c.space("prefix lengths and files");
    spaces::words(b"ab", 1, 6, &mut |w| {
        for p in 1..=w.len() as i64 + 1 {
            for k in 0..=2 {
                c.case("ent", &[k, p, 0], &[w]);
                c.case("ent", &[k, p, 1], &[w]);
            }
        }
    });
    let (dense, far) = (c.b(60, 160), c.b(65538, 131074));
    base_texts(c, dense, far, &mut |c, w| {
        let n = w.len() as i64;
        if w.len() <= 160 {
            let mut ks: Vec<i64> = c.b(vec![0, 1, 2, 4, 7], (0..=9).collect());
            ks.extend([n - 2, n - 1, n, n + 1, n + 2]);
            for k in ks {
                if k >= 0 {
                    c.case("ent", &[k, 0, 0], &[w]);
                }
            }
        } else {
            for k in [0, 1, 2, 3, 5, 8, 16, 64, 255, 256] {
                c.case("ent", &[k, 0, 0], &[w]);
            }
        }
    });
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}
fn judge(env: &mut Env, c: &Case, prog: &str) -> R {
    let t = &c.words[0];
    let k = c.num(0) as u64;
    let p = c.num(1) as usize;
    let mut o = opts(&["-o", &k.to_string()]);
    if p > 0 {
        o.extend(opts(&["-p", &p.to_string()]));
    }
    let r = run_on(env, prog, &o, t, c.num(2))?;
    if prog == "entropy_kmer" && !(1..=7).contains(&k) {
        ensure!(!r.ok(), "{} accepts order {}: {}", prog, k, r.describe());
        ensure!(!String::from_utf8_lossy(&r.stdout).contains("RESULT"), "{} refuses order {} with a result: {}", prog, k, r.describe());
        env.seen(&(k, r.exit));
        return Ok(());
    }
    expect_ok(&format!("{} {:?} on {}", prog, o, show(t)), &r)?;
    let m = result_fields(&r)?;
    let eff = if p > 0 { &t[..p.min(t.len())] } else { &t[..] };
    let t0 = [eff, b"\0"].concat();
    let want = if k as u128 >= t0.len() as u128 { 0.0 } else { model::entropy(&t0, k as usize) };
    let got: f64 = field(&m, "entropy")?;
    ensure!(close(got, want), "{} of order {} of {} is {} instead of {}", prog, k, show(eff), got, want);
    let len: usize = field(&m, "length")?;
    ensure!(len == t0.len(), "{} {:?} of {} reports length {} instead of {}", prog, o, show(t), len, t0.len());
    let order: u64 = field(&m, "order")?;
    ensure!(order == k, "{} reports order {} instead of {}", prog, order, k);
    env.seen(&(format!("{:.9}", got), k));
    env.note = Some(format!("{:?} -> {}", o, got));
    Ok(())
}
fn j14(env: &mut Env, c: &Case) -> R {
    judge(env, c, "entropy")
}
fn x15(c: &mut Ctx) {
    c.space("small words, orders 1..7");
    let (b, t, q) = c.b((8, 6, 5), (11, 8, 6));
    spaces::small(false, b, t, q, &mut |w| {
        for k in 1..=7 {
            c.case("ent", &[k, 0, 0], &[w]);
        }
    });
    c.space("longer words over byte pairs");
    for a in [&b"\x01\xff"[..], b"\x80\x7f", b"\xfe\xff"] {
        spaces::words(a, 8, c.b(9, 11), &mut |w| {
            for k in [1, 4, 6, 7] {
                c.case("ent", &[k, 0, 0], &[w]);
            }
        });
    }
    c.space("refused orders");
    for k in [0, 8, 9, 10, 16, 64, (1i64 << 32) + 1, -1] {
        for w in [&b""[..], b"a", b"abracadabraabracadabra"] {
            c.case("ent", &[k, 0, 0], &[w]);
        }
    }
    c.space("prefix lengths and files");
    spaces::words(b"ab", 1, 6, &mut |w| {
        for p in 1..=w.len() as i64 + 1 {
            for k in [1, 2, 7] {
                c.case("ent", &[k, p, 0], &[w]);
                c.case("ent", &[k, p, 1], &[w]);
            }
        }
    });
    let (dense, far) = (c.b(60, 160), c.b(65538, 131074));
    base_texts(c, dense, far, &mut |c, w| {
        for k in 1..=7 {
            if c.thorough || w.len() > 160 || [1, 2, 6, 7].contains(&k) {
                c.case("ent", &[k, 0, 0], &[w]);
            }
        }
    });
}
fn j15(env: &mut Env, c: &Case) -> R {
    judge(env, c, "entropy_kmer")
}
