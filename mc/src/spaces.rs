//! Bounded input spaces, enumerated simplest first.

/// calls f with every word of length lo..=hi over the alphabet
pub fn words(alpha: &[u8], lo: usize, hi: usize, f: &mut dyn FnMut(&[u8])) {
    for n in lo..=hi {
        let mut idx = vec![0usize; n];
        let mut w: Vec<u8> = vec![alpha[0]; n];
        'outer: loop {
            f(&w);
            let mut i = n;
            loop {
                if i == 0 {
                    break 'outer;
                }
                i -= 1;
                if idx[i] + 1 < alpha.len() {
                    idx[i] += 1;
                    w[i] = alpha[idx[i]];
                    break;
                }
                idx[i] = 0;
                w[i] = alpha[0];
            }
        }
    }
}

/// byte embeddings of small alphabets, chosen at the boundaries of signedness, ASCII and the byte range
pub const BIN: &[&[u8]] = &[b"ab", b"\x01\xff", b"\x7f\x80", b"\n0"];
pub const TER: &[&[u8]] = &[b"abc", b"\x01\x80\xff"];
pub const QUA: &[&[u8]] = &[b"abcd", b"\x01\n\x7f\xfe"];
pub const BIN0: &[&[u8]] = &[b"ab", b"\x00\xff", b"\x7f\x80", b"\n0"];
pub const TER0: &[&[u8]] = &[b"abc", b"\x00\x80\xff"];
pub const QUA0: &[&[u8]] = &[b"abcd", b"\x00\n\x7f\xfe"];

/// small exhaustive space: binary up to `b`, ternary up to `t`, quaternary up to `q`, 5 and 6 letters
/// shorter, in several byte embeddings (shorter for the non-ASCII ones), plus all one-byte words
pub fn small(zero: bool, b: usize, t: usize, q: usize, f: &mut dyn FnMut(&[u8])) {
    f(b"");
    let (bs, ts, qs) = if zero { (BIN0, TER0, QUA0) } else { (BIN, TER, QUA) };
    for c in (!zero as u8)..=255 {
        f(&[c]);
    }
    for (i, a) in bs.iter().enumerate() {
        words(a, 1, if i == 0 { b } else { b.saturating_sub(3) }, f);
    }
    for (i, a) in ts.iter().enumerate() {
        words(a, 1, if i == 0 { t } else { t.saturating_sub(2) }, f);
    }
    for (i, a) in qs.iter().enumerate() {
        words(a, 1, if i == 0 { q } else { q.saturating_sub(1) }, f);
    }
    words(b"abcde", 1, q.saturating_sub(1), f);
    words(b"abcdef", 1, q.saturating_sub(2), f);
}

/// all words of two bytes over the full byte range
pub fn byte_pairs(zero: bool, f: &mut dyn FnMut(&[u8])) {
    let lo = !zero as u16;
    for a in lo..256 {
        for b in lo..256 {
            f(&[a as u8, b as u8]);
        }
    }
}
/// pairs that are kept when a byte-pair space is thinned out: equal, neighbouring or one-bit-apart bytes,
/// complements, the letters of one case and the other, and the ends of the (signed) byte range
pub fn related(x: u8, y: u8) -> bool {
    let d = x ^ y;
    d.count_ones() <= 1 || d == 255 || x.abs_diff(y) <= 2 || [0, 127, 128, 255].contains(&x) || [0, 127, 128, 255].contains(&y)
}
/// for every pair of bytes the words xyx, xxy (and y-first ones by symmetry), for byte-value coverage inside words
pub fn byte_triples(zero: bool, step: u16, f: &mut dyn FnMut(&[u8])) {
    let lo = !zero as u16;
    for a in lo..256 {
        for b in lo..256 {
            let (x, y) = (a as u8, b as u8);
            if (a - lo) % step == 0 || related(x, y) {
                f(&[x, y, x]);
                f(&[x, x, y, x]);
            }
        }
    }
}

/// `family(k, n)` is the member of length n of the k-th parametric family
pub const FAMILIES: usize = 24;
pub fn family(k: usize, n: usize) -> Vec<u8> {
    fn tm(i: usize) -> u8 {
        (i.count_ones() % 2) as u8
    }
    fn fib(n: usize) -> Vec<u8> {
        let mut w = vec![0u8];
        let mut v = vec![0u8, 1];
        while v.len() < n {
            let x = [v.clone(), w].concat();
            w = v;
            v = x;
        }
        v.truncate(n);
        v
    }
    fn lrs(n: usize, s: u64) -> Vec<u64> {
        let mut x = 0x9e3779b97f4a7c15u64 ^ s;
        (0..n)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x >> 11
            })
            .collect()
    }
    match k {
        0 => vec![b'a'; n],
        1 => (0..n).map(|i| if i + 1 == n { b'b' } else { b'a' }).collect(),
        2 => (0..n).map(|i| if i == 0 { b'b' } else { b'a' }).collect(),
        3 => (0..n).map(|i| b"ab"[i % 2]).collect(),
        4 => (0..n).map(|i| if i == n / 2 { b'b' } else { b'a' }).collect(),
        5 => fib(n).iter().map(|c| b'a' + c).collect(),
        6 => (0..n).map(|i| b'a' + tm(i)).collect(),
        7 => (0..n).map(|i| (i % 255 + 1) as u8).collect(),
        8 => (0..n).map(|i| (255 - i % 255) as u8).collect(),
        9 => lrs(n, 1).iter().map(|x| b'a' + (x % 2) as u8).collect(),
        10 => lrs(n, 2).iter().map(|x| (x % 255 + 1) as u8).collect(),
        11 => lrs(n, 3).iter().map(|x| b"acgt\x80\xff"[(x % 6) as usize]).collect(),
        12 => fib(n).iter().rev().map(|c| if *c == 0 { 0xff } else { 1 }).collect(),
        13 => {
            // palindrome-like: an increasing then a decreasing half
            (0..n).map(|i| (i.min(n - 1 - i) % 255 + 1) as u8).collect()
        }
        14 => {
            // runs of growing length of alternating letters
            let mut w = vec![];
            let mut k = 1;
            while w.len() < n {
                w.extend(std::iter::repeat(if k % 2 == 0 { b'b' } else { b'a' }).take(k));
                k += 1;
            }
            w.truncate(n);
            w
        }
        16 => (0..n).map(|i| if i == n / 2 { b'c' } else { b"ab"[i % 2] }).collect(),
        17 => {
            // blocks of equal letters, ascending
            (0..n).map(|i| (i * 7 / n.max(1)) as u8 + b'a').collect()
        }
        18 => {
            // blocks of equal letters, descending over high bytes
            (0..n).map(|i| 0xff - (i * 5 / n.max(1)) as u8).collect()
        }
        19 => (0..n).map(|i| if (i + 1).is_power_of_two() { b'b' } else { b'a' }).collect(),
        20 => vec![0xff; n],
        21 => {
            // a square of an aperiodic half
            let h: Vec<u8> = lrs((n + 1) / 2, 7).iter().map(|x| b'a' + (x % 3) as u8).collect();
            [&h[..], &h[..]].concat()[..n].to_vec()
        }
        22 => {
            // the reverse of the preceding half, with newlines
            let h: Vec<u8> = lrs((n + 1) / 2, 9).iter().map(|x| b"\n\r \t"[(x % 4) as usize]).collect();
            let r: Vec<u8> = h.iter().rev().cloned().collect();
            [&h[..], &r[..]].concat()[..n].to_vec()
        }
        23 => (0..n).map(|i| if i + 2 == n { b'b' } else { b'a' }).collect(),
        _ => {
            // a long block repeated, with one differing letter at the end
            let b: Vec<u8> = lrs(37, 5).iter().map(|x| b'a' + (x % 4) as u8).collect();
            (0..n).map(|i| if i + 1 == n { b'z' } else { b[i % 37] }).collect()
        }
    }
}
/// lengths around the thresholds at which realistic code changes behaviour (buffer sizes, integer widths, the length 100 switch)
pub fn thresholds(max: usize) -> Vec<usize> {
    let mut v = vec![];
    for c in [16usize, 32, 64, 100, 128, 200, 256, 300, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000, 131072] {
        for d in [c - 2, c - 1, c, c + 1, c + 2] {
            if d <= max {
                v.push(d);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// every family at every length 1..=dense and at all thresholds up to max
pub fn long(dense: usize, max: usize, f: &mut dyn FnMut(&[u8])) {
    let mut ls: Vec<usize> = (1..=dense).collect();
    ls.extend(thresholds(max).into_iter().filter(|&l| l > dense));
    for n in ls {
        for k in 0..FAMILIES {
            f(&family(k, n));
        }
    }
    if max >= 65538 {
        late(&[257, 1001, 4097, 65537], f);
        fresh(&[300, 1001, 4097, 8191, 20011, 32769, 40000, 65537, 100001], f);
    }
    far(max, f);
}
/// powers of a word with one letter changed, left out or doubled far behind the beginning
pub fn late(lens: &[usize], f: &mut dyn FnMut(&[u8])) {
    let roots: Vec<Vec<u8>> = vec![
        b"ab".to_vec(),
        b"aab".to_vec(),
        family(5, 13),
        family(11, 100),
        family(10, 257),
        [&[b'a'; 254][..], b"b"].concat(),
    ];
    for u in &roots {
        for &n in lens {
            if n < 2 * u.len() + 2 {
                continue;
            }
            let w: Vec<u8> = u.iter().cycle().take(n).cloned().collect();
            for p in [n / 3, n - 1 - u.len(), n - 2] {
                for d in [1, 255u8] {
                    let mut v = w.clone();
                    v[p] = v[p].wrapping_add(d).max(1);
                    f(&v);
                }
                let mut v = w.clone();
                v.remove(p);
                f(&v);
                let mut v = w.clone();
                v.insert(p, w[p]);
                f(&v);
            }
        }
    }
}
/// long texts over few to many letters in which one more letter occurs only once: at the end, in the middle or in front
pub fn fresh(lens: &[usize], f: &mut dyn FnMut(&[u8])) {
    for &n in lens {
        let l = family(10, n);
        for m in [2usize, 4, 26, 127, 128, 129, 200, 252] {
            // the letters 2..=m+1
            let mut w: Vec<u8> = l.iter().enumerate().map(|(i, &x)| 2 + (if i < m { i } else { x as usize } % m) as u8).collect();
            for (p, x) in [(n - 1, 255u8), (n - 1, 1), (n / 2, 255), (0, 1)] {
                let y = std::mem::replace(&mut w[p], x);
                f(&w);
                w[p] = y;
            }
        }
    }
}
/// a few families beyond the thresholds covered by all of them
pub fn far(max: usize, f: &mut dyn FnMut(&[u8])) {
    for n in [100001, 131073, 200003, 262145] {
        for k in [5, 10, 11, 15, 16, 21] {
            if max >= 65538 && n > max {
                f(&family(k, n));
            }
        }
    }
    for n in [1048577, 1500003] {
        for k in [5, 10, 15] {
            if max >= 65538 {
                f(&family(k, n));
            }
        }
    }
}
/// x^i y x^j and x^i y^j x^k shapes for all exponents in the given sets
pub fn blocks(x: u8, y: u8, e: &[usize], f: &mut dyn FnMut(&[u8])) {
    let rep = |c: u8, k: usize| std::iter::repeat(c).take(k);
    for &i in e {
        for &j in e {
            for &k in e {
                let w: Vec<u8> = rep(x, i).chain(rep(y, j)).chain(rep(x, k)).collect();
                f(&w);
            }
        }
    }
}
