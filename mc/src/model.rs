//! Reference models: deliberately boring, written from the definitions, sharing no code with the
//! implementation. The `*_long` variants exist for long texts and are themselves checked against
//! the naive ones (see `selfcheck`).
use std::collections::{BTreeSet, HashMap, HashSet};

pub fn sa_naive<C: Ord>(t: &[C]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..t.len()).collect();
    v.sort_by(|&a, &b| t[a..].cmp(&t[b..]));
    v
}

/// ranks of all suffixes (or of all conjugates if `cyclic`) by prefix doubling
fn doubling(t: &[u8], cyclic: bool) -> Vec<usize> {
    let n = t.len();
    let mut rank: Vec<usize> = t.iter().map(|&c| c as usize + 1).collect();
    let mut idx: Vec<usize> = (0..n).collect();
    let mut h = 1;
    // key of i after this step: (rank[i], rank[i+h])
    while h < 2 * n {
        crate::util::beat();
        let key = |i: usize| -> (usize, usize) {
            let j = i + h;
            (rank[i], if cyclic { rank[j % n] } else if j < n { rank[j] } else { 0 })
        };
        idx.sort_unstable_by_key(|&i| key(i));
        let mut next = vec![0usize; n];
        let (mut r, mut classes) = (1, 1);
        for k in 0..n {
            if k > 0 && key(idx[k]) != key(idx[k - 1]) {
                r = k + 1;
                classes += 1;
            }
            next[idx[k]] = r;
        }
        rank = next;
        if classes == n || h > n {
            break;
        }
        h *= 2;
    }
    rank
}
pub fn sa(t: &[u8]) -> Vec<usize> {
    if t.len() <= 64 {
        return sa_naive(t);
    }
    let rank = doubling(t, false);
    let mut v: Vec<usize> = (0..t.len()).collect();
    v.sort_unstable_by_key(|&i| rank[i]);
    v
}
/// last column of the sorted conjugates
pub fn bwt_conjugates(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    let mut v: Vec<usize> = (0..n).collect();
    if n <= 64 {
        let d: Vec<u8> = [t, t].concat();
        v.sort_by(|&a, &b| d[a..a + n].cmp(&d[b..b + n]));
    } else {
        let rank = doubling(t, true);
        v.sort_by_key(|&i| rank[i]);
    }
    v.iter().map(|&i| t[(i + n - 1) % n]).collect()
}
pub fn bwt_suffixes(t: &[u8]) -> Vec<u8> {
    let n = t.len();
    sa(t).iter().map(|&i| t[(i + n - 1) % n]).collect()
}
/// inverts the BWT of a text with a unique smallest terminator 0
pub fn invert_bwt(b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| (b[i], i)); // stable: first column position -> last column position
    let mut out = Vec::with_capacity(n);
    let mut p = order[0]; // row of the rotation starting with the terminator: its last column row
    for _ in 0..n {
        p = order[p];
        out.push(b[p]);
    }
    // out starts right after... rotate such that 0 is last
    let z = out.iter().position(|&c| c == 0).unwrap();
    out.rotate_left(z + 1);
    out
}
pub fn runs<T: PartialEq>(t: &[T]) -> usize {
    let mut r = 0;
    for i in 0..t.len() {
        if i == 0 || t[i] != t[i - 1] {
            r += 1;
        }
    }
    r
}
pub fn rotate<T: Clone>(t: &[T], k: usize) -> Vec<T> {
    [&t[k..], &t[..k]].concat()
}
pub fn least_rotation_value<T: Ord + Clone>(t: &[T]) -> Vec<T> {
    (0..t.len()).map(|k| rotate(t, k)).min().unwrap()
}
/// least rotation start of long words by pairwise elimination
pub fn least_rotation_long(t: &[u8]) -> Vec<u8> {
    if t.len() <= 64 {
        return least_rotation_value(t);
    }
    let r = doubling(t, true);
    let k = (0..t.len()).min_by_key(|&i| r[i]).unwrap();
    rotate(t, k)
}
/// w is Lyndon: strictly smaller than all its proper non-empty suffixes
pub fn is_lyndon<T: Ord>(w: &[T]) -> bool {
    !w.is_empty() && (1..w.len()).all(|i| w < &w[i..])
}
/// Lyndon factorization by definition: the longest Lyndon prefix is the first factor
pub fn lyndon_naive<T: Ord>(t: &[T]) -> Vec<usize> {
    let mut ends = vec![];
    let mut s = 0;
    while s < t.len() {
        let l = (1..=t.len() - s).rev().find(|&l| is_lyndon(&t[s..s + l])).unwrap();
        s += l;
        ends.push(s - 1);
    }
    ends
}
/// via the suffix ranks: the factors start at the left-to-right minima of the rank
pub fn lyndon(t: &[u8]) -> Vec<usize> {
    if t.len() <= 40 {
        return lyndon_naive(t);
    }
    let n = t.len();
    let s = sa(t);
    let mut rank = vec![0; n];
    for (r, &p) in s.iter().enumerate() {
        rank[p] = r;
    }
    let mut ends = vec![];
    let mut min = rank[0];
    for i in 1..n {
        if rank[i] < min {
            ends.push(i - 1);
            min = rank[i];
        }
    }
    ends.push(n - 1);
    ends
}
pub fn bbwt<T: Ord + Clone>(t: &[T]) -> Vec<T> {
    // all conjugates of all factors, compared by their infinite repetition
    let ends = lyndon_naive(t);
    bbwt_with(t, &ends)
}
pub fn bbwt_with<T: Ord + Clone>(t: &[T], ends: &[usize]) -> Vec<T> {
    if t.len() > 2000 {
        return bbwt_long(t, ends);
    }
    let mut conj: Vec<Vec<T>> = vec![];
    let mut s = 0;
    for &e in ends {
        let f = &t[s..=e];
        for k in 0..f.len() {
            conj.push(rotate(f, k));
        }
        s = e + 1;
    }
    conj.sort_by(|a, b| {
        // two infinite periodic words agree everywhere iff they agree on |a|+|b| symbols
        for i in 0..a.len() + b.len() {
            let c = a[i % a.len()].cmp(&b[i % b.len()]);
            if c != std::cmp::Ordering::Equal {
                return c;
            }
        }
        std::cmp::Ordering::Equal
    });
    conj.iter().map(|c| c.last().unwrap().clone()).collect()
}
/// the same with conjugates kept as (factor start, length, shift)
pub fn bbwt_long<T: Ord + Clone>(t: &[T], ends: &[usize]) -> Vec<T> {
    let mut conj: Vec<(usize, usize, usize)> = vec![];
    let mut s = 0;
    for &e in ends {
        conj.extend((0..=e - s).map(|k| (s, e + 1 - s, k)));
        s = e + 1;
    }
    let letter = |c: &(usize, usize, usize), i: usize| &t[c.0 + (c.2 + i) % c.1];
    conj.sort_by(|a, b| {
        (0..a.1 + b.1).map(|i| letter(a, i).cmp(letter(b, i))).find(|o| *o != std::cmp::Ordering::Equal).unwrap_or(std::cmp::Ordering::Equal)
    });
    conj.iter().map(|c| letter(c, c.1 - 1).clone()).collect()
}
pub fn border_naive<T: PartialEq>(t: &[T], i: usize) -> usize {
    (0..i).rev().find(|&l| t[..l] == t[i - l..i]).unwrap_or(0)
}
pub fn least_period<T: PartialEq>(t: &[T]) -> usize {
    (1..=t.len()).find(|&p| (0..t.len() - p).all(|j| t[j] == t[j + p])).unwrap_or(0)
}
pub fn is_primitive<T: PartialEq>(t: &[T]) -> bool {
    let n = t.len();
    !(1..n).any(|p| n % p == 0 && (0..n - p).all(|j| t[j] == t[j + p]))
}
/// prefix of a power of a Lyndon word
pub fn is_prenecklace(w: &[u8]) -> bool {
    if w.len() > 64 {
        // no suffix is smaller than the prefix of its length
        let z = z_array(w);
        return (1..w.len()).all(|i| i + z[i] == w.len() || w[z[i]] < w[i + z[i]]);
    }
    is_prenecklace_naive(w)
}
/// z[i] is the length of the longest common prefix of w and w[i..]
pub fn z_array(w: &[u8]) -> Vec<usize> {
    let n = w.len();
    let mut z = vec![0; n];
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        let mut k = if i < r { z[i - l].min(r - i) } else { 0 };
        while i + k < n && w[k] == w[i + k] {
            k += 1;
        }
        z[i] = k;
        if i + k > r {
            (l, r) = (i, i + k);
        }
    }
    z
}
pub fn is_prenecklace_naive(w: &[u8]) -> bool {
    let n = w.len();
    (1..=n).any(|p| is_lyndon(&w[..p]) && (0..n - p).all(|j| w[j] == w[j + p]))
}
pub fn lce<T: PartialEq>(t: &[T], a: usize, b: usize) -> usize {
    let mut l = 0;
    while a.max(b) + l < t.len() && t[a + l] == t[b + l] {
        l += 1;
    }
    l
}
/// PLCP by definition, O(n^2)
pub fn plcp(t: &[u8], sa: &[usize]) -> Vec<u32> {
    let n = t.len();
    let mut v = vec![0; n];
    // Kasai order keeps long repetitive texts linear
    let mut isa = vec![0; n];
    for (r, &p) in sa.iter().enumerate() {
        isa[p] = r;
    }
    let mut l = 0usize;
    for i in 0..n {
        if isa[i] == 0 {
            l = 0;
            v[i] = 0;
            continue;
        }
        let j = sa[isa[i] - 1];
        while i.max(j) + l < n && t[i + l] == t[j + l] {
            l += 1;
        }
        v[i] = l as u32;
        l = l.saturating_sub(1);
    }
    v
}
pub fn z_function(t: &[u8]) -> Vec<usize> {
    let n = t.len();
    let mut z = vec![0; n];
    let (mut l, mut r) = (0, 0);
    for i in 1..n {
        if i < r {
            z[i] = z[i - l].min(r - i);
        }
        while i + z[i] < n && t[z[i]] == t[i + z[i]] {
            z[i] += 1;
        }
        if i + z[i] > r {
            l = i;
            r = i + z[i];
        }
    }
    z
}
/// lengths of the greedy LZ77 factors (0 for a fresh letter) with the start of each factor
pub fn lz77(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    if n > 64 {
        return lz77_automaton(t);
    }
    let mut f = vec![];
    let mut i = 0;
    while i < n {
        let best = (0..i).map(|j| lce(t, j, i)).max().unwrap_or(0);
        f.push((i, best));
        i += best.max(1);
    }
    f
}
const NONE: usize = usize::MAX;
struct State {
    len: usize,
    link: usize,
    first_end: usize,
    clone: bool,
    next: Vec<(u8, usize)>,
}
impl State {
    fn get(&self, c: u8) -> Option<usize> {
        self.next.iter().find(|x| x.0 == c).map(|x| x.1)
    }
}
/// the suffix automaton of t
fn automaton(t: &[u8]) -> Vec<State> {
    let mut st = vec![State { len: 0, link: NONE, first_end: 0, clone: true, next: vec![] }];
    let mut last = 0;
    for (e, &c) in t.iter().enumerate() {
        let cur = st.len();
        st.push(State { len: st[last].len + 1, link: 0, first_end: e, clone: false, next: vec![] });
        let mut p = last;
        while p != NONE && st[p].get(c).is_none() {
            st[p].next.push((c, cur));
            p = st[p].link;
        }
        if p != NONE {
            let q = st[p].get(c).unwrap();
            if st[p].len + 1 == st[q].len {
                st[cur].link = q;
            } else {
                let clone = st.len();
                let s = State { len: st[p].len + 1, link: st[q].link, first_end: st[q].first_end, clone: true, next: st[q].next.clone() };
                st.push(s);
                while p != NONE && st[p].get(c) == Some(q) {
                    st[p].next.iter_mut().find(|x| x.0 == c).unwrap().1 = clone;
                    p = st[p].link;
                }
                st[q].link = clone;
                st[cur].link = clone;
            }
        }
        last = cur;
    }
    st
}
/// the same by walking the suffix automaton as long as the word read has an occurrence that ends earlier
fn lz77_automaton(t: &[u8]) -> Vec<(usize, usize)> {
    let st = automaton(t);
    let n = t.len();
    let mut f = vec![];
    let mut i = 0;
    while i < n {
        let (mut s, mut l) = (0, 0);
        while i + l < n {
            match st[s].get(t[i + l]) {
                Some(x) if st[x].first_end < i + l => {
                    s = x;
                    l += 1;
                }
                _ => break,
            }
        }
        f.push((i, l));
        i += l.max(1);
    }
    f
}
/// every substring has an occurrence with a marked position: per state of the suffix automaton, the least
/// distance from an end position back to a mark must be less than the length of its shortest word
pub fn is_attractor(t: &[u8], marks: &BTreeSet<usize>) -> bool {
    let st = automaton(t);
    let mut dist = vec![usize::MAX; t.len()];
    let mut last = None;
    for i in 0..t.len() {
        if marks.contains(&i) {
            last = Some(i);
        }
        dist[i] = last.map(|l| i - l).unwrap_or(usize::MAX);
    }
    let mut best: Vec<usize> = st.iter().map(|s| if s.clone { usize::MAX } else { dist[s.first_end] }).collect();
    let mut order: Vec<usize> = (1..st.len()).collect();
    order.sort_by_key(|&s| std::cmp::Reverse(st[s].len));
    for s in order {
        if best[s] >= st[st[s].link].len + 1 {
            return false;
        }
        best[st[s].link] = best[st[s].link].min(best[s]);
    }
    true
}
/// (start, length, source) of the lex-parse phrases; length 0 for a letter
pub fn lexparse(t: &[u8]) -> Vec<(usize, usize, usize)> {
    let n = t.len();
    let s = sa(t);
    let p = plcp(t, &s);
    let mut pred = vec![usize::MAX; n];
    for k in 1..n {
        pred[s[k]] = s[k - 1];
    }
    let mut f = vec![];
    let mut i = 0;
    while i < n {
        let l = p[i] as usize;
        f.push((i, l, if l == 0 { t[i] as usize } else { pred[i] }));
        i += l.max(1);
    }
    f
}
/// minimal unique substrings by counting occurrences
pub fn mus_naive(t: &[u8]) -> Vec<(usize, usize)> {
    let n = t.len();
    let count = |w: &[u8]| -> usize {
        if w.is_empty() {
            return 2;
        }
        (0..=n - w.len()).filter(|&i| &t[i..i + w.len()] == w).count()
    };
    let mut v = vec![];
    for i in 0..n {
        for l in 1..=n - i {
            let w = &t[i..i + l];
            if count(w) == 1 && count(&w[1..]) > 1 && count(&w[..l - 1]) > 1 {
                v.push((i, l));
            }
        }
    }
    v
}
pub fn mus(t: &[u8]) -> Vec<(usize, usize)> {
    if t.len() <= 14 {
        return mus_naive(t);
    }
    let n = t.len();
    let s = sa(t);
    let p = plcp(t, &s);
    // longest repeated prefix of each suffix
    let mut rep = vec![0usize; n];
    for k in 0..n {
        let a = p[s[k]] as usize;
        let b = if k + 1 < n { p[s[k + 1]] as usize } else { 0 };
        rep[s[k]] = a.max(b);
    }
    let mut v = vec![];
    for i in 0..n {
        // shortest unique substring starting at i is t[i..i+rep+1]; minimal iff t[i+1..] of that end is repeated
        let l = rep[i] + 1;
        if i + l <= n {
            let right = l - 1; // length of t[i+1..i+l]
            if right == 0 || rep[i + 1] >= right {
                v.push((i, l));
            }
        }
    }
    v
}
pub fn h0_times_n(counts: &[usize]) -> f64 {
    let n: usize = counts.iter().sum();
    counts.iter().filter(|&&c| c > 0).map(|&c| c as f64 * (n as f64 / c as f64).log2()).sum()
}
/// k-th order empirical entropy of t (callers append the terminator)
pub fn entropy(t: &[u8], k: usize) -> f64 {
    if t.is_empty() || t.len() <= k {
        return 0.0;
    }
    let mut m: HashMap<&[u8], HashMap<u8, usize>> = HashMap::new();
    for i in 0..t.len() - k {
        *m.entry(&t[i..i + k]).or_default().entry(t[i + k]).or_default() += 1;
    }
    let mut parts: Vec<f64> = m.values().map(|c| h0_times_n(&c.values().cloned().collect::<Vec<_>>())).collect();
    parts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    parts.iter().sum::<f64>() / t.len() as f64
}
/// all distinct substrings that have no occurrence containing a marked position
pub fn uncovered<'a>(t: &'a [u8], marks: &BTreeSet<usize>) -> HashSet<&'a [u8]> {
    let n = t.len();
    let mut next = vec![usize::MAX; n + 1];
    for i in (0..n).rev() {
        next[i] = if marks.contains(&i) { i } else { next[i + 1] };
    }
    let mut all: HashMap<&[u8], bool> = HashMap::new();
    for i in 0..n {
        for j in i + 1..=n {
            let cov = next[i] < j;
            let e = all.entry(&t[i..j]).or_insert(false);
            *e |= cov;
        }
    }
    all.into_iter().filter(|x| !x.1).map(|x| x.0).collect()
}
pub fn mtf(t: &[u8]) -> Vec<u8> {
    let mut l: Vec<u8> = (0..=255).collect();
    t.iter()
        .map(|c| {
            let p = l.iter().position(|x| x == c).unwrap();
            let x = l.remove(p);
            l.insert(0, x);
            p as u8
        })
        .collect()
}
pub fn unmtf(t: &[u8]) -> Vec<u8> {
    let mut l: Vec<u8> = (0..=255).collect();
    t.iter()
        .map(|&p| {
            let x = l.remove(p as usize);
            l.insert(0, x);
            x
        })
        .collect()
}
/// maximal runs, split into pieces of at most `max`
pub fn run_pieces(t: &[u8], max: usize) -> Vec<(u8, usize)> {
    let mut v: Vec<(u8, usize)> = vec![];
    for &c in t {
        match v.last_mut() {
            Some((d, k)) if *d == c && *k < max => *k += 1,
            _ => v.push((c, 1)),
        }
    }
    v
}
pub fn iterate(start: &[u8], k: usize, f: &dyn Fn(u8) -> &'static [u8]) -> Vec<u8> {
    let mut w = start.to_vec();
    for _ in 0..k {
        w = w.iter().flat_map(|&c| f(c).iter().cloned()).collect();
    }
    w
}
pub fn kolakoski(k: usize) -> Vec<u8> {
    let mut w = b"bb".to_vec();
    for _ in 0..k {
        let mut next = vec![];
        for (i, &c) in w.iter().enumerate() {
            let letter = if i % 2 == 0 { b'b' } else { b'a' };
            for _ in 0..(if c == b'a' { 1 } else { 2 }) {
                next.push(letter);
            }
        }
        w = next;
    }
    w
}
/// n-th term (n >= 1) of the regular paperfolding sequence
pub fn paperfold(mut n: usize) -> u8 {
    while n % 2 == 0 {
        n /= 2;
    }
    if n % 4 == 1 { b'1' } else { b'0' }
}
/// the Lyndon word of length at most n over s letters that follows the Lyndon word w in lexicographic order
pub fn next_lyndon(w: &[u8], n: usize, s: usize) -> Option<Vec<u8>> {
    // the longest proper prefix of w^* of length n whose last letter can be incremented
    (1..=n).rev().find(|&l| (w[(l - 1) % w.len()] as usize) + 1 < s).map(|l| {
        let mut x: Vec<u8> = (0..l).map(|i| w[i % w.len()]).collect();
        x[l - 1] += 1;
        x
    })
}
pub fn lyndon_words(maxlen: usize, s: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for l in 1..=maxlen {
        let mut w = vec![0u8; l];
        loop {
            if is_lyndon(&w) {
                v.push(w.clone());
            }
            let mut i = l;
            let mut done = true;
            while i > 0 {
                i -= 1;
                if (w[i] as usize) + 1 < s {
                    w[i] += 1;
                    done = false;
                    break;
                }
                w[i] = 0;
            }
            if done {
                break;
            }
        }
    }
    v.sort();
    v
}
