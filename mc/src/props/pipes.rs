//! The shell scripts and the documented pipelines: programs working on each other's output.
use super::*;
use crate::ensure;
use crate::util::show;
use std::os::unix::fs::PermissionsExt;

pub const PROPS: &[Prop] = &[Prop {
    id: "C41",
    explore: x41,
    judge: j41,
    progs: super::delivery::EVERY,
    what: "files given to the scripts; folders; texts given to the pipelines",
    bounds: "compute_stats.sh on all zero-free non-empty words over {a,b} up to length 6 (9), 3 letters up to 4 (6), all one-byte words, every third (each) family at lengths up to 40 and around powers of two up to 4098, file names with blanks and several dots, in other directories; on missing, unnamed and surplus files; gen_artificial.sh into a new, an existing, a nested folder (all 210 files compared); escape -f 0 -t 255 -e 254 | count_r, | count_r --no-dollar, | escape --is-reversion on all words over {0,254,255,a} up to length 6 (7), over {0,255} up to 10 (13), and on all words of two bytes; word | count_sigma, lyndonfactorization, reverse | reverse, bwt | count_runs over all generators",
    oracle: "the reference models of the single programs, composed",
    fault: false,
}];

fn x41(c: &mut Ctx) {
    c.space("compute_stats.sh: small words");
    spaces::words(b"ab", 1, c.b(6, 9), &mut |w| c.case("stats", &[0], &[w]));
    spaces::words(b"abc", 1, c.b(4, 6), &mut |w| c.case("stats", &[1], &[w]));
    spaces::words(b"\x01\xff\n &", 1, c.b(2, 3), &mut |w| c.case("stats", &[0], &[w]));
    for x in 1..=255u8 {
        c.case("stats", &[x as i64 % 4], &[&[x]]);
    }
    c.space("compute_stats.sh: families");
    for n in [5usize, 8, 13, 21, 34, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 1000, 4095, 4096, 4097, 4098] {
        for k in 0..spaces::FAMILIES {
            let w = spaces::family(k, n);
            if !w.contains(&0) && (c.thorough || (n + k) % 3 == 0) {
                c.case("stats", &[(n + k) as i64 % 4], &[&w]);
            }
        }
    }
    c.space("compute_stats.sh: nothing to work on");
    for k in 0..4 {
        c.case("nostats", &[k], &[]);
    }
    c.space("gen_artificial.sh");
    for k in 0..4 {
        c.case("gen", &[k], &[]);
    }
    c.space("escape and count_r");
    let mut f = |c: &mut Ctx, w: &[u8]| c.case("escape", &[], &[w]);
    spaces::words(b"\0\xfe\xffa", 1, c.b(6, 7), &mut |w| f(c, w));
    spaces::words(b"\0\xff", 7, c.b(10, 13), &mut |w| f(c, w));
    spaces::byte_pairs(false, &mut |w| f(c, w));
    for n in spaces::thresholds(c.b(4098, 65538)) {
        for k in [2, 7, 9, 10, 19] {
            let w: Vec<u8> = spaces::family(k, n).iter().map(|&x| x.wrapping_add(159)).collect();
            f(c, &w);
        }
    }
    c.space("words and analyses");
    for g in 0..GENS.len() as i64 {
        for k in 0..=c.b(10, 13) {
            c.case("word", &[g, k], &[]);
        }
    }
}
const FILES: &[&str] = &["t.txt", "a b.txt", "dir/x.y.z", "sub dir/text"];
const GENS: &[&str] = &[
    "tribonacci", "vtm", "fibonacci", "kolakoski", "thue-morse", "period-doubling", "paper-folding",
    "quaternary-paper-folding", "binary-de-brujin", "power2", "fibonacci-lyndon-factor",
];
/// a stand-in for `cargo run --bin PROGRAM -- ARGUMENTS` that starts the program built by the check
const CARGO: &str = r#"#!/bin/bash
bin=
while [ $# -gt 0 ]; do
  case "$1" in
    --bin=*) bin=${1#--bin=};;
    --bin) bin=$2; shift;;
    --) shift; break;;
  esac
  shift
done
exec "$MC_BINS/$bin" "$@"
"#;
struct Script {
    out: String,
    err: String,
    code: Option<i32>,
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Infra(e.to_string()))
}
fn script(env: &mut Env, name: &str, cwd: &std::path::Path, args: &[&str]) -> Result<Script, Fail> {
    // next to the programs, since programs in the scratch directory might not be executable
    let bins = io(env.bins.canonicalize())?;
    let bin = bins.join("stub");
    if !bin.join("cargo").exists() {
        let new = bin.join(format!("cargo.{}.{:?}", std::process::id(), std::thread::current().id()));
        io(std::fs::create_dir_all(&bin))?;
        io(std::fs::write(&new, CARGO))?;
        io(std::fs::set_permissions(&new, std::fs::Permissions::from_mode(0o755)))?;
        io(std::fs::rename(&new, bin.join("cargo")))?;
    }
    let repo = std::env::var("MC_REPO").unwrap_or("/repo".into());
    let path = format!("{}/{}", repo, name);
    if !std::path::Path::new(&path).exists() {
        return bad(format!("{} is gone", name));
    }
    let o = io(std::process::Command::new("timeout")
        .args(["300", "bash", &path])
        .args(args)
        .env_clear()
        .env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", bin.display()))
        .env("MC_BINS", &bins)
        .env("LC_ALL", "C")
        .env("RUST_BACKTRACE", "0")
        .env("HOME", &env.scratch)
        .current_dir(cwd)
        .stdin(std::process::Stdio::null())
        .output())?;
    env.step();
    Ok(Script {
        out: String::from_utf8_lossy(&o.stdout).to_string(),
        err: String::from_utf8_lossy(&o.stderr).to_string(),
        code: o.status.code(),
    })
}
fn fresh_dir(env: &Env) -> Result<std::path::PathBuf, Fail> {
    let d = env.scratch.join("scripts");
    let _ = std::fs::remove_dir_all(&d);
    io(std::fs::create_dir_all(&d))?;
    Ok(d)
}
fn cells(l: &str) -> Vec<String> {
    l.trim_end().trim_end_matches('\\').split('&').map(|x| x.trim().to_string()).collect()
}
fn close(a: &str, b: f64) -> bool {
    a.parse::<f64>().map_or(false, |a| (a - b).abs() <= 1e-9 * (1.0 + b.abs()))
}
fn stage(env: &mut Env, prog: &str, o: &[&str], t: &[u8]) -> Result<Vec<u8>, Fail> {
    let r = run_on(env, prog, &opts(o), t, 2)?;
    expect_ok(&format!("{} {:?} on {}", prog, o, show(t)), &r)?;
    Ok(r.stdout)
}
fn number(out: &[u8], key: &str) -> Result<usize, Fail> {
    let s = String::from_utf8_lossy(out).to_string();
    let k = format!(" {}=", key);
    match s.lines().filter(|l| l.starts_with("RESULT")).flat_map(|l| l.split_once(&k[..])).next() {
        Some((_, r)) => match r.split(' ').next().and_then(|x| x.trim().parse().ok()) {
            Some(x) => Ok(x),
            None => bad(format!("{} has no value in {}", key, s)),
        },
        None => bad(format!("no {} in {}", key, s)),
    }
}
fn j41(env: &mut Env, c: &Case) -> R {
    match c.kind.as_str() {
        "stats" => {
            let t = &c.words[0];
            let dir = fresh_dir(env)?;
            let name = FILES[c.num(0) as usize];
            let f = dir.join(name);
            io(std::fs::create_dir_all(f.parent().unwrap()))?;
            io(std::fs::write(&f, t))?;
            let absolute = t.len() % 2 == 0;
            let r = script(env, "compute_stats.sh", &dir, &[if absolute { f.to_str().unwrap() } else { name }])?;
            let what = format!("compute_stats.sh {} with {}", name, show(t));
            let rows: Vec<&str> = r.out.lines().filter(|l| l.contains('&')).collect();
            let all = format!("{}{}", r.out, r.err);
            ensure!(r.code == Some(0) && rows.len() == 2, "{} prints {:?} and ends with {:?}", what, all, r.code);
            let (h, v) = (cells(rows[0]), cells(rows[1]));
            ensure!(h.len() == v.len(), "{}: {} columns, {} values in {:?}", what, h.len(), v.len(), all);
            ensure!(v[0] == f.file_name().unwrap().to_str().unwrap(), "{}: the row is for {:?}", what, v[0]);
            let t0 = [&t[..], b"\0"].concat();
            let distinct = t.iter().collect::<std::collections::HashSet<_>>().len();
            let mut seen = 0;
            for (k, x) in h.iter().zip(&v).skip(1) {
                let k: String = k.chars().filter(|c| !"$\\{}".contains(*c)).collect();
                let want = match k.as_str() {
                    "n" => t.len() as f64,
                    "sigma" => distinct as f64,
                    "z" => model::lz77(t).len() as f64,
                    "r" => model::runs(&model::bwt_conjugates(&t0)) as f64,
                    _ => match k.strip_prefix("H_").and_then(|k| k.parse::<usize>().ok()) {
                        Some(k) if k < t0.len() => model::entropy(&t0, k),
                        Some(_) => 0.0,
                        None => return bad(format!("{}: what is the column {:?}?", what, k)),
                    },
                };
                ensure!(close(x, want), "{}: the column {} has {:?} instead of {} in {:?}", what, k, x, want, all);
                seen += 1;
            }
            ensure!(seen == 9, "{}: {} columns", what, seen);
            env.seen(&r.out);
            env.note = Some(r.out.clone());
        }
        "nostats" => {
            let dir = fresh_dir(env)?;
            io(std::fs::write(dir.join("t"), "abab"))?;
            let args: &[&str] = [&[][..], &["missing"], &["t", "t"], &[""]][c.num(0) as usize];
            let r = script(env, "compute_stats.sh", &dir, args)?;
            ensure!(r.code != Some(0) && r.code.is_some() && r.code != Some(124), "compute_stats.sh {:?} ends with {:?}", args, r.code);
            ensure!(!r.out.contains('&'), "compute_stats.sh {:?} prints {:?}", args, r.out);
            ensure!(!r.err.is_empty(), "compute_stats.sh {:?} gives no reason", args);
            env.seen(&r.err);
        }
        "gen" => {
            let dir = fresh_dir(env)?;
            let (arg, folder) = match c.num(0) {
                0 => ("out", "out"),
                1 => ("a/b c/d", "a/b c/d"),
                2 => (".", "."),
                _ => ("old", "old"),
            };
            if c.num(0) == 3 {
                io(std::fs::create_dir_all(dir.join("old")))?;
                io(std::fs::write(dir.join("old/vtm.03"), [b'#'; 5000]))?;
                io(std::fs::write(dir.join("old/mine"), b"mine"))?;
            }
            let r = script(env, "gen_artificial.sh", &dir, &[arg])?;
            ensure!(r.code == Some(0), "gen_artificial.sh {} ends with {:?}: {}", arg, r.code, r.err.lines().last().unwrap_or(""));
            let mut files: Vec<String> = io(std::fs::read_dir(dir.join(folder)))?.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
            files.retain(|f| f != "mine");
            files.sort();
            let mut want = vec![];
            for g in &GENS[..10] {
                for k in 0..=20 {
                    let name = format!("{}.{:02}", g, k);
                    let got = std::fs::read(dir.join(folder).join(&name)).unwrap_or_default();
                    let word = words::word_of(g, k);
                    match word {
                        Some(w) => ensure!(got == w, "gen_artificial.sh {}: {} holds {} instead of {}", arg, name, show(&got), show(&w)),
                        None => {
                            // a de Bruijn word: every block of k+1 bits once
                            let n = k + 1;
                            let mut s = vec![false; 1 << n];
                            ensure!(got.len() == 1 << n, "gen_artificial.sh {}: {} has {} letters", arg, name, got.len());
                            let mut distinct = 0;
                            let mut x = 0usize;
                            for i in 0..got.len() + n - 1 {
                                x = (x << 1 | (got[i % got.len()] != got[0]) as usize) & ((1 << n) - 1);
                                if i + 1 >= n && !s[x] {
                                    s[x] = true;
                                    distinct += 1;
                                }
                            }
                            ensure!(distinct == 1 << n, "gen_artificial.sh {}: {} has {} of {} blocks", arg, name, distinct, 1 << n);
                        }
                    }
                    env.step();
                    want.push(name);
                }
            }
            want.sort();
            ensure!(files == want, "gen_artificial.sh {}: {} files instead of {}", arg, files.len(), want.len());
            if c.num(0) == 3 {
                ensure!(std::fs::read(dir.join("old/mine")).unwrap_or_default() == b"mine", "gen_artificial.sh changes another file");
            }
            env.seen(&(c.num(0), files.len()));
            let _ = std::fs::remove_dir_all(&dir);
        }
        "escape" => {
            let t = &c.words[0];
            let o = ["-f", "0", "-t", "255", "-e", "254"];
            let e = stage(env, "escape", &o, t)?;
            let mut want = vec![];
            for &x in t.iter() {
                match x {
                    0 => want.extend([254, 255]),
                    254 => want.extend([254, 254]),
                    _ => want.push(x),
                }
            }
            ensure!(e == want, "escape {:?} turns {} into {} instead of {}", o, show(t), show(&e), show(&want));
            let e0 = [&e[..], b"\0"].concat();
            let a = stage(env, "count_r", &[], &e)?;
            let r = model::runs(&model::bwt_conjugates(&e0));
            ensure!(number(&a, "bwt_runs")? == r, "escape {:?} | count_r on {} gives {} instead of {} runs", o, show(t), number(&a, "bwt_runs")?, r);
            ensure!(number(&a, "length")? == e0.len(), "escape {:?} | count_r on {} gives length {}", o, show(t), number(&a, "length")?);
            let back = stage(env, "escape", &[&o[..], &["--is-reversion"]].concat(), &e)?;
            ensure!(&back == t, "escape | escape --is-reversion turns {} into {}", show(t), show(&back));
            env.seen(&(r, e));
        }
        _ => {
            let (g, k) = (GENS[c.num(0) as usize], c.num(1).to_string());
            let w = stage(env, "word", &["-n", g, "-k", &k], b"")?;
            let what = format!("word -n {} -k {}", g, k);
            let s = stage(env, "count_sigma", &[], &w)?;
            let distinct = w.iter().collect::<std::collections::HashSet<_>>().len();
            ensure!(number(&s, "sigma")? == distinct && number(&s, "length")? == w.len(), "{} | count_sigma gives {:?}", what, String::from_utf8_lossy(&s));
            let r = stage(env, "reverse", &[], &w)?;
            ensure!(stage(env, "reverse", &[], &r)? == w, "{} | reverse | reverse is not the word", what);
            let l = stage(env, "lyndonfactorization", &[], &w)?;
            let f = model::lyndon(&w).len();
            ensure!(number(&l, "factors")? == f, "{} | lyndonfactorization gives {} instead of {}", what, number(&l, "factors")?, f);
            let b = stage(env, "bwt", &[], &w)?;
            let n = stage(env, "count_runs", &[], &b)?;
            let runs = model::runs(&model::bwt_conjugates(&[&w[..], b"\0"].concat()));
            ensure!(String::from_utf8_lossy(&n).trim().parse() == Ok(runs), "{} | bwt | count_runs gives {:?} instead of {}", what, String::from_utf8_lossy(&n), runs);
            let m = stage(env, "mtf", &[], &b)?;
            ensure!(m == model::mtf(&b), "{} | bwt | mtf is wrong", what);
            let e = stage(env, "rle", &[], &m)?;
            let mut d = vec![];
            for p in e.chunks(2) {
                d.extend(std::iter::repeat(p[0]).take(p.get(1).map_or(0, |&x| x as usize + 1)));
            }
            ensure!(d == m, "{} | bwt | mtf | rle does not decode to its input", what);
            env.seen(&(g, k, f, runs));
        }
    }
    Ok(())
}
