use super::*;
use crate::ensure;
use crate::util::show;
use stringology::core;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        explore: x09,
        judge: j09,
        progs: &[],
        what: "inputs and options",
        bounds: "all non-empty words over 2,3,4 letters up to length 14,9,7 (17,11,8), with zero bytes, with and without a terminator, all 2-byte words, powers, families at every length up to 300 and thresholds up to 65538 (131074); every permutation of 0..n-1 for n <= 8 (9) for the inverse permutation and Phi, over several integer types",
        oracle: "sorted suffixes, predecessor, and longest common prefixes by definition",
        fault: false,
    },
    Prop {
        id: "C10",
        explore: x10,
        judge: j10,
        progs: &[],
        what: "inputs and options",
        bounds: "all arrays of length 1..n over 0..s-1: s=2 n<=14 (17), s=3 n<=10 (12), s=4 n<=8 (9), s=6 n<=6 (7); all permutations of length <= 9 (10); as u8, i32, u64, f-ordered wide values; suffix arrays and ramps of the families at every length up to 300 (600) and thresholds up to 65538 (131074)",
        oracle: "nearest strictly smaller value to the left/right by linear scan",
        fault: false,
    },
];

fn x09(c: &mut Ctx) {
    c.space("small words");
    let (b, t, q) = c.b((14, 9, 7), (17, 11, 8));
    spaces::small(true, b, t, q, &mut |w| c.case("text", &[], &[w]));
    spaces::byte_pairs(true, &mut |w| c.case("text", &[], &[w]));
    c.space("terminated words");
    spaces::small(false, b - 2, t - 1, q - 1, &mut |w| c.case("text", &[], &[&[w, b"\0"].concat()]));
    c.space("powers");
    spaces::words(b"ab", 1, c.b(6, 8), &mut |u| {
        for k in [2usize, 3, 5, 9, 20] {
            let p = u.repeat(k);
            c.case("text", &[], &[&p]);
            c.case("text", &[], &[&[&p[..], b"b"].concat()]);
            c.case("text", &[], &[&[&p[..], b"\0"].concat()]);
        }
    });
    c.space("permutations");
    for n in 1..=c.b(8, 9) {
        permutations(n, &mut |p| c.case("perm", &[], &[p]));
    }
    c.space("families");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| {
        c.case("text", &[], &[w]);
        c.case("text", &[], &[&[w, b"\0"].concat()]);
    });
}
pub fn permutations(n: usize, f: &mut dyn FnMut(&[u8])) {
    fn go(p: &mut Vec<u8>, used: &mut Vec<bool>, n: usize, f: &mut dyn FnMut(&[u8])) {
        if p.len() == n {
            f(p);
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                p.push(i as u8);
                go(p, used, n, f);
                p.pop();
                used[i] = false;
            }
        }
    }
    go(&mut vec![], &mut vec![false; n], n, f)
}
fn j09(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if t.is_empty() {
        return Ok(());
    }
    let n = t.len();
    if c.kind == "perm" {
        macro_rules! inv {
            ($ty:ty) => {{
                let p: Vec<$ty> = t.iter().map(|&x| x as $ty).collect();
                env.step();
                let q = core::inverse_permutation(&p);
                ensure!(q.len() == n, "length");
                for i in 0..n {
                    ensure!(q[p[i] as usize] as usize == i, "inverse of {:?} is {:?}", p, q);
                }
                env.step();
                let phi = core::compute_phi(&p);
                for i in 0..n {
                    let want = p[(i + n - 1) % n];
                    ensure!(phi[p[i] as usize] == want, "phi of {:?} is {:?}", p, phi);
                }
                env.seen(&q);
            }};
        }
        inv!(i32);
        inv!(usize);
        inv!(u8);
        inv!(u64);
        inv!(i64);
        return Ok(());
    }
    let s = model::sa(t);
    if n <= 5000 {
        env.step();
        let got = core::suffixarray_naive(t);
        ensure!(got == s, "suffix array of {} is {:?} instead of {:?}", show(t), super::lyndon::trim(&got), super::lyndon::trim(&s));
        if n <= 9 {
            let wide: Vec<i64> = t.iter().map(|&x| x as i64 * 1_000_003 - 70_000_000).collect();
            env.step();
            ensure!(core::suffixarray_naive(&wide) == s, "suffix array over integers {:?}", wide);
        }
    }
    let sai: Vec<i32> = s.iter().map(|&x| x as i32).collect();
    env.step();
    let phi = core::compute_phi(&sai);
    ensure!(phi.len() == n, "phi has {} entries", phi.len());
    for i in 0..n {
        let want = sai[(i + n - 1) % n];
        ensure!(phi[s[i]] == want, "phi[{}] of {} is {} instead of {}", s[i], show(t), phi[s[i]], want);
    }
    env.step();
    let inv = core::inverse_permutation(&sai);
    ensure!((0..n).all(|i| inv[s[i]] as usize == i), "inverse suffix array of {}", show(t));
    let want = model::plcp(t, &s);
    env.step();
    let plcp = core::compute_plcp(t, &phi);
    for i in 0..n {
        ensure!(plcp[i] == want[i], "plcp[{}] of {} is {} instead of {}", i, show(t), plcp[i], want[i]);
    }
    env.step();
    let lcp = core::compute_lcp(&plcp, &sai);
    ensure!(lcp.len() == n && (0..n).all(|i| lcp[i] == want[s[i]]), "lcp array of {} is {:?}", show(t), super::lyndon::trim(&lcp));
    let lcp2 = core::compute_lcp(&plcp, &s);
    ensure!(lcp2 == lcp, "lcp array with another integer type");
    if n <= 12 {
        for i in 1..n {
            ensure!(lcp[i] as usize == model::lce(t, s[i - 1], s[i]), "lcp[{}] of {}", i, show(t));
        }
        ensure!(lcp[0] == 0, "lcp[0] of {} is {}", show(t), lcp[0]);
    }
    env.step();
    let b = core::bwt_from_sa(t, &s);
    let wb = model::bwt_suffixes(t);
    ensure!(b == wb, "bwt_from_sa of {} is {} instead of {}", show(t), show(&b), show(&wb));
    env.validated += 4;
    env.seen(&lcp);
    env.note = Some(format!("lcp {:?}", super::lyndon::trim(&lcp)));
    Ok(())
}

fn x10(c: &mut Ctx) {
    c.space("all small arrays");
    for (s, n) in [(2u8, c.b(14, 17)), (3, c.b(10, 12)), (4, c.b(8, 9)), (6, c.b(6, 7))] {
        let a: Vec<u8> = (0..s).collect();
        spaces::words(&a, 1, n, &mut |w| c.case("arr", &[0], &[w]));
    }
    c.space("permutations");
    for n in 1..=c.b(9, 10) {
        permutations(n, &mut |p| c.case("arr", &[0], &[p]));
    }
    c.space("families and their suffix arrays");
    spaces::long(c.b(300, 600), c.b(65538, 131074), &mut |w| {
        c.case("arr", &[0], &[w]);
        c.case("arr", &[1], &[w]);
    });
}
fn check10<T: Ord + std::fmt::Debug>(env: &mut Env, a: &[T]) -> R {
    let n = a.len();
    env.steps += 2;
    let p = core::compute_psv(a);
    let q = core::compute_nsv(a);
    ensure!(p.len() == n && q.len() == n, "lengths");
    // reference: a stack of candidates for long arrays, the linear scan for short ones
    let mut wp = vec![core::INVALID_VALUE; n];
    let mut wq = vec![core::INVALID_VALUE; n];
    if n <= 64 {
        for i in 0..n {
            if let Some(j) = (0..i).rev().find(|&j| a[j] < a[i]) {
                wp[i] = j as u32;
            }
            if let Some(j) = (i + 1..n).find(|&j| a[j] < a[i]) {
                wq[i] = j as u32;
            }
        }
    } else {
        let mut st: Vec<usize> = vec![];
        for i in 0..n {
            while let Some(&j) = st.last() {
                if a[j] > a[i] {
                    wq[j] = i as u32;
                    st.pop();
                } else {
                    break;
                }
            }
            st.push(i);
        }
        st.clear();
        for i in (0..n).rev() {
            while let Some(&j) = st.last() {
                if a[j] > a[i] {
                    wp[j] = i as u32;
                    st.pop();
                } else {
                    break;
                }
            }
            st.push(i);
        }
    }
    for i in 0..n {
        ensure!(p[i] == wp[i], "psv[{}] of {:?} is {} instead of {}", i, &a[..n.min(20)], p[i], wp[i]);
        ensure!(q[i] == wq[i], "nsv[{}] of {:?} is {} instead of {}", i, &a[..n.min(20)], q[i], wq[i]);
    }
    env.validated += 1;
    env.seen(&(p, q));
    Ok(())
}
fn j10(env: &mut Env, c: &Case) -> R {
    let t = &c.words[0];
    if c.num(0) == 1 {
        let s: Vec<i32> = model::sa(t).iter().map(|&x| x as i32).collect();
        return check10(env, &s);
    }
    check10(env, t)?;
    if t.len() <= 64 {
        check10(env, &t.iter().map(|&x| x as i64 * 5_000_000_000 - 9).collect::<Vec<_>>())?;
        check10(env, &t.iter().map(|&x| -(x as i32)).collect::<Vec<_>>())?;
        check10(env, &t.iter().map(|&x| format!("{:03}", x)).collect::<Vec<_>>())?;
    }
    Ok(())
}
