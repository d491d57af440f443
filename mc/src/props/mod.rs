use crate::framework::*;
use crate::{model, spaces};
pub mod arrays;
pub mod bwt;
pub mod lyndon;
pub mod factor;
pub mod entropy;
pub mod misc;
pub mod words;
pub mod delivery;
pub mod random;
pub mod cli;
pub mod effects;
pub mod gen;
pub mod history;
pub mod linear;
pub mod pipes;
pub mod profiles;
pub mod readers;
pub mod rename;

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(bwt::PROPS.iter());
    v.extend(lyndon::PROPS.iter());
    v.extend(arrays::PROPS.iter());
    v.extend(factor::PROPS.iter());
    v.extend(entropy::PROPS.iter());
    v.extend(misc::PROPS.iter());
    v.extend(words::PROPS.iter());
    v.extend(delivery::PROPS.iter());
    v.extend(random::PROPS.iter());
    v.extend(cli::PROPS.iter());
    v.extend(gen::PROPS.iter());
    v.extend(effects::PROPS.iter());
    v.extend(history::PROPS.iter());
    v.extend(pipes::PROPS.iter());
    v.extend(linear::PROPS.iter());
    v.extend(profiles::PROPS.iter());
    v.extend(readers::PROPS.iter());
    v.extend(rename::PROPS.iter());
    v.sort_by_key(|p| p.id);
    v
}

/// the fast reference models used for long texts agree with the naive ones on a small exhaustive space
pub fn selfcheck() -> Result<(), String> {
    let mut e = None;
    for k in 0..spaces::FAMILIES {
        for n in [65usize, 80, 111] {
            let t = spaces::family(k, n);
            let mut check = |c: bool, what: &str| {
                if !c && e.is_none() {
                    e = Some(format!("{} family {} length {}", what, k, n));
                }
            };
            let s = model::sa_naive(&t);
            check(model::sa(&t) == s, "sa");
            check(model::lyndon(&t) == model::lyndon_naive(&t), "lyndon");
            check(model::least_rotation_long(&t) == model::least_rotation_value(&t), "least rotation");
            let l = model::least_rotation_long(&t);
            for x in [&t, &l, &[&l[..], &l[..n / 2]].concat(), &[&l[..7], &l[..7], &l[..7]].concat().repeat(4)] {
                check(model::is_prenecklace(x) == model::is_prenecklace_naive(x), "prenecklace");
            }
            let d = [&t[..], &t[..]].concat();
            let mut c: Vec<usize> = (0..n).collect();
            c.sort_by(|&a, &b| d[a..a + n].cmp(&d[b..b + n]));
            let b: Vec<u8> = c.iter().map(|&i| t[(i + n - 1) % n]).collect();
            check(model::bwt_conjugates(&t) == b, "conjugates");
            let p: Vec<u32> = {
                let mut p = vec![0; n];
                for k in 1..n {
                    p[s[k]] = model::lce(&t, s[k - 1], s[k]) as u32;
                }
                p
            };
            check(model::plcp(&t, &s) == p, "plcp");
            let mut i = 0;
            let mut f = vec![];
            while i < n {
                let b = (0..i).map(|j| model::lce(&t, j, i)).max().unwrap_or(0);
                f.push((i, b));
                i += b.max(1);
            }
            check(model::lz77(&t) == f, "lz77");
            // the boundaries of the factors form an attractor; without one of them they may or may not
            let ends: std::collections::BTreeSet<usize> = f.iter().map(|&(i, l)| i + l.max(1) - 1).collect();
            check(model::is_attractor(&t, &ends), "attractor");
            for &x in &ends {
                let mut e = ends.clone();
                e.remove(&x);
                e.insert(n / 2);
                check(model::is_attractor(&t, &e) == model::uncovered(&t, &e).is_empty(), "attractor");
            }
            check(model::mus(&t[..40]) == model::mus_naive(&t[..40]), "mus");
            let mut z = [&t[..], &[0u8][..]].concat();
            z.retain(|&c| c != 0);
            z.push(0);
            check(model::bbwt_long(&t, &model::lyndon(&t)) == model::bbwt_with(&t, &model::lyndon(&t)), "bbwt");
            check(model::invert_bwt(&model::bwt_conjugates(&z)) == z, "invert");
        }
    }
    for (n, s) in [(1, 1), (4, 1), (10, 2), (6, 3), (4, 5), (1, 256)] {
        let list = model::lyndon_words(n, s);
        let next: Vec<Option<Vec<u8>>> = list.iter().map(|w| model::next_lyndon(w, n, s)).collect();
        let want: Vec<Option<Vec<u8>>> = list[1..].iter().cloned().map(Some).chain([None]).collect();
        if (next != want || list[0] != [0]) && e.is_none() {
            e = Some(format!("next_lyndon {} {}", n, s));
        }
    }
    match e {
        None => Ok(()),
        Some(x) => Err(x),
    }
}

use crate::server::{Exit, Out, Req, Stdin};

/// the channel a text is delivered through
pub const CH_STDIN: i64 = 0;
pub const CH_FILE: i64 = 1;
pub const CH_PIPE: i64 = 2;
pub const CH_DEVSTDIN: i64 = 3;

/// runs a program on a text delivered through `chan`; extra options given
pub fn run_on(env: &mut Env, prog: &str, opts: &[String], text: &[u8], chan: i64) -> Result<Out, Fail> {
    let mut args: Vec<String> = opts.to_vec();
    let mut req_in: &[u8] = text;
    let mut stdin = Stdin::File;
    match chan {
        CH_FILE => {
            let f = env.file("in");
            std::fs::write(&f, text).map_err(|e| Fail::Infra(e.to_string()))?;
            args.push("-i".into());
            args.push(f);
            req_in = b"";
        }
        CH_PIPE => stdin = Stdin::Pipe,
        CH_DEVSTDIN => {
            stdin = Stdin::Pipe;
            args.push("-i".into());
            args.push("/dev/stdin".into());
        }
        _ => {}
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut r = Req::new(&a, req_in);
    r.stdin = stdin;
    env.run(prog, &r)
}
pub fn opts(o: &[&str]) -> Vec<String> {
    o.iter().map(|s| s.to_string()).collect()
}
pub fn expect_ok(prog: &str, o: &Out) -> R {
    if o.exit != Exit::Code(0) {
        return bad(format!("{} does not succeed: {}", prog, o.describe()));
    }
    Ok(())
}
/// key=value fields of the RESULT line; exactly one line of that kind, nothing else on stdout unless allowed
pub fn result_fields(o: &Out) -> Result<std::collections::HashMap<String, String>, Fail> {
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let lines: Vec<&str> = s.lines().filter(|l| l.starts_with("RESULT")).collect();
    if lines.len() != 1 {
        return bad(format!("{} RESULT lines: {}", lines.len(), o.describe()));
    }
    let mut m = std::collections::HashMap::new();
    let l = &lines[0]["RESULT".len()..];
    // the substring list of mus is the last field and contains blanks
    let (head, tail) = match l.find(" mus=") {
        Some(p) => (&l[..p], Some(&l[p + 5..])),
        None => (l, None),
    };
    for f in head.split(' ').filter(|f| !f.is_empty()) {
        match f.split_once('=') {
            Some((k, v)) => {
                if m.insert(k.to_string(), v.to_string()).is_some() {
                    return bad(format!("field {} twice: {}", k, lines[0]));
                }
            }
            None => return bad(format!("field without value: {}", lines[0])),
        }
    }
    if let Some(t) = tail {
        m.insert("mus".into(), t.to_string());
    }
    Ok(m)
}
pub fn field<T: std::str::FromStr>(m: &std::collections::HashMap<String, String>, k: &str) -> Result<T, Fail> {
    match m.get(k).and_then(|v| v.parse::<T>().ok()) {
        Some(v) => Ok(v),
        None => bad(format!("field {} is missing or malformed: {:?}", k, m.get(k))),
    }
}

/// every way to walk through an iterator gives what its repeated `next` gives; returns the number of steps
pub fn walks<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(make: &dyn Fn() -> I, max: usize) -> Result<u64, String> {
    let mut all = vec![];
    let mut it = make();
    while all.len() < max {
        match it.next() {
            Some(x) => all.push(x),
            None => break,
        }
    }
    let n = all.len();
    let ended = n < max;
    let mut steps = n as u64;
    // skipping
    for start in 0..=4.min(n) {
        for k in (0..=6).chain([n.saturating_sub(start + 2), n.saturating_sub(start + 1), n - start, n - start + 1]) {
            if !ended && start + k + 1 >= n {
                continue;
            }
            let mut it = make();
            for _ in 0..start {
                it.next();
            }
            let x = it.nth(k);
            let y = it.next();
            steps += 1;
            if x.as_ref() != all.get(start + k) || y.as_ref() != all.get(start + k + 1) {
                return Err(format!("after {} steps nth({}) gives {:?} and then {:?} instead of {:?} and {:?}", start, k, x, y, all.get(start + k), all.get(start + k + 1)));
            }
        }
    }
    for step in 1..=5 {
        let v: Vec<T> = make().step_by(step).take(n.div_ceil(step)).collect();
        steps += 1;
        if v.len() != n.div_ceil(step) || v.iter().enumerate().any(|(i, x)| *x != all[i * step]) {
            return Err(format!("step_by({}) gives other elements", step));
        }
    }
    if ended {
        for start in 0..=n {
            let at = || {
                let mut it = make();
                for _ in 0..start {
                    it.next();
                }
                it
            };
            let (lo, hi) = at().size_hint();
            steps += 1;
            if lo > n - start || hi.is_some_and(|h| h < n - start) {
                return Err(format!("after {} steps size_hint is {:?} for {} elements", start, (lo, hi), n - start));
            }
            if start > 4 && start + 2 < n {
                continue;
            }
            let mut folded = vec![];
            at().for_each(|x| folded.push(x));
            if folded[..] != all[start..] || at().count() != n - start || at().last().as_ref() != all[start..].last() {
                return Err(format!("after {} steps count, last or for_each see other elements", start));
            }
        }
    }
    Ok(steps)
}
