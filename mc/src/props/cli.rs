//! Command lines: all spellings and orders of the same options mean the same, malformed ones are refused.
use super::*;
use crate::ensure;
use crate::server::*;
use crate::util::show;
use super::delivery::same;

pub const PROPS: &[Prop] = &[Prop {
    id: "C37",
    explore: x37,
    judge: j37,
    progs: ALL,
    what: "programs x sets of options and values x orders and spellings; malformed command lines",
    bounds: "19 programs; every set of at most 3 (4) options with up to 2 values each, in every order and with every product of the spellings `-p 5`, `-p5`, `-p=5`, `--prefixlength 5`, `--prefixlength=5`; every larger set in all rotations of the two opposite orders with uniform spellings and with clustered short options (`-unp5`); list options repeated, comma-separated or multi-valued; malformed: unknown options, stray arguments, missing and unusable values, values for flags, options given twice, required options left out, each alone and before and after every single well-formed option",
    oracle: "standard output, output file and status (for randomstring only the lengths) of the canonical command line (short options in a fixed order); refusal is a non-zero status, empty standard output and an untouched output file",
    fault: false,
}];
const ALL: &[&str] = &[
    "bwt", "count_r", "count_z", "count_lexparse", "count_sigma", "count_runs", "entropy", "entropy_kmer", "is_stringattractor",
    "lyndonfactorization", "mus", "mtf", "rle", "reverse", "escape", "word", "lyndonwords", "enumerate", "randomstring",
];

enum K {
    Flag,
    /// usable values, unusable values
    Val(&'static [&'static str], &'static [&'static str]),
    /// values of a list option; comma-separated if true, otherwise one option may take several arguments
    List(&'static [&'static [&'static str]], bool, &'static [&'static str]),
}
use K::*;
struct O {
    s: &'static str,
    l: &'static str,
    k: K,
    required: bool,
}
const fn o(s: &'static str, l: &'static str, k: K) -> O {
    O { s, l, k, required: false }
}
const NUM: &[&str] = &["x", "-1", "3x", "1.5", "18446744073709551616", "", "0x1", "1 "];
const BYTE: &[&str] = &["x", "-1", "256", "1.5", "", "a"];
const IN: O = o("i", "infilename", Val(&["@IN"], &[]));
const OUT: O = o("o", "outfilename", Val(&["@OUT"], &[]));
const P: O = o("p", "prefixlength", Val(&["5", "3"], NUM));
const U: O = o("u", "use-matrix", Flag);
const N: O = o("n", "no-dollar", Flag);
const ORDER: O = o("o", "order", Val(&["1", "2"], NUM));
const L_BWT: &[O] = &[IN, OUT, P, U, N];
const L_R: &[O] = &[IN, P, U, N];
const L_OUT: &[O] = &[IN, OUT, P];
const L_P: &[O] = &[IN, P];
const L_I: &[O] = &[IN];
const L_ENT: &[O] = &[IN, P, ORDER];
const L_ATT: &[O] = &[IN, P, o("a", "attractor", List(&[&["1"], &["0", "1", "5"]], false, &["x", "-1", "1.5"]))];
const L_IO: &[O] = &[IN, OUT];
const L_RLE: &[O] = &[IN, OUT, o("z", "onlyzero", Flag), o("", "human", Flag)];
const L_ESC: &[O] = &[
    IN,
    OUT,
    P,
    o("e", "escape-symbol", Val(&["98", "120"], BYTE)),
    o("f", "from-symbols", List(&[&["97"], &["110", "97"]], true, &["x", "256", "1,,2"])),
    o("t", "to-symbols", List(&[&["99"], &["1", "255"]], true, &["x", "256", "1,,2"])),
    o("", "is-reversion", Flag),
];
const L_WORD: &[O] = &[
    O { s: "k", l: "", k: Val(&["4", "2"], BYTE), required: true },
    O { s: "n", l: "name", k: Val(&["fibonacci", "kolakoski"], &["nonsense", "", "fib"]), required: true },
    OUT,
];
const L_LYN: &[O] = &[o("l", "", Val(&["3", "1"], NUM)), o("s", "", Val(&["3", "1"], NUM)), OUT];
const L_RND: &[O] = &[OUT, O { s: "a", l: "alphabet-size", k: Val(&["3", "0"], NUM), required: true }, P];
const L_ENUM: &[O] = &[];
fn table(i: usize) -> &'static [O] {
    match ALL[i] {
        "bwt" => L_BWT,
        "count_r" => L_R,
        "count_z" | "count_lexparse" | "lyndonfactorization" | "reverse" => L_OUT,
        "count_sigma" | "mus" => L_P,
        "count_runs" => L_I,
        "entropy" | "entropy_kmer" => L_ENT,
        "is_stringattractor" => L_ATT,
        "mtf" => L_IO,
        "rle" => L_RLE,
        "escape" => L_ESC,
        "word" => L_WORD,
        "lyndonwords" => L_LYN,
        "randomstring" => L_RND,
        _ => L_ENUM,
    }
}
type Args = Vec<String>;
/// all spellings of one option with its `v`-th value; the first is the canonical one
fn spell(o: &O, v: usize) -> Vec<Args> {
    let mut r: Vec<Args> = vec![];
    let mut names: Vec<String> = vec![];
    if !o.s.is_empty() {
        names.push(format!("-{}", o.s));
    }
    if !o.l.is_empty() {
        names.push(format!("--{}", o.l));
    }
    let joins = |n: &str, x: &str| -> Vec<Args> {
        let mut j = vec![vec![n.to_string(), x.to_string()], vec![format!("{}={}", n, x)]];
        if !n.starts_with("--") {
            j.push(vec![format!("{}{}", n, x)]);
        }
        j
    };
    for n in &names {
        match &o.k {
            Flag => r.push(vec![n.clone()]),
            Val(vs, _) => r.extend(joins(n, vs[v])),
            List(vs, comma, _) => {
                // every element by an option of its own
                r.push(vs[v].iter().flat_map(|x| vec![n.clone(), x.to_string()]).collect());
                r.push(vs[v].iter().map(|x| format!("{}={}", n, x)).collect());
                if *comma {
                    r.extend(joins(n, &vs[v].join(",")));
                } else {
                    let mut a = vec![n.clone()];
                    a.extend(vs[v].iter().map(|x| x.to_string()));
                    r.push(a);
                }
            }
        }
    }
    if names.len() == 2 {
        if let List(vs, _, _) = &o.k {
            r.push(vs[v].iter().enumerate().flat_map(|(i, x)| vec![names[i % 2].clone(), x.to_string()]).collect());
        }
    }
    let mut u: Vec<Args> = vec![];
    for x in r {
        if !u.contains(&x) {
            u.push(x);
        }
    }
    u
}
fn values(o: &O) -> usize {
    match &o.k {
        Flag => 1,
        Val(v, _) => v.len(),
        List(v, _, _) => v.len(),
    }
}
/// all choices of options with values
fn choices(t: &[O]) -> Vec<Vec<(usize, usize)>> {
    let mut r = vec![vec![]];
    for (i, o) in t.iter().enumerate() {
        let mut n = vec![];
        for c in &r {
            if !o.required {
                n.push(c.clone());
            }
            for v in 0..values(o) {
                let mut d: Vec<(usize, usize)> = c.clone();
                d.push((i, v));
                n.push(d);
            }
        }
        r = n;
    }
    r
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
fn rotations(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    for s in 0..n.max(1) {
        let a: Vec<usize> = (0..n).map(|i| (i + s) % n).collect();
        let b: Vec<usize> = a.iter().rev().cloned().collect();
        for x in [a, b] {
            if !r.contains(&x) {
                r.push(x);
            }
        }
    }
    r
}
fn join(a: &[String]) -> Vec<u8> {
    a.join("\x1f").into_bytes()
}
fn split(a: &[u8]) -> Args {
    if a.is_empty() {
        return vec![];
    }
    String::from_utf8_lossy(a).split('\x1f').map(|s| s.to_string()).collect()
}
/// short options in clusters, the values attached
fn clustered(t: &[O], ch: &[(usize, usize)], ord: &[usize]) -> Args {
    let mut r: Args = vec![];
    let mut cur = String::from("-");
    for &i in ord {
        let (k, v) = ch[i];
        let o = &t[k];
        let single = match &o.k {
            Flag => Some(String::new()),
            Val(vs, _) => Some(vs[v].to_string()),
            List(vs, c, _) => {
                if *c || vs[v].len() == 1 {
                    Some(vs[v].join(","))
                } else {
                    None
                }
            }
        };
        match single {
            Some(x) if !o.s.is_empty() => {
                cur.push_str(o.s);
                if let Flag = o.k {
                    continue;
                }
                cur.push_str(&x);
                r.push(std::mem::replace(&mut cur, String::from("-")));
            }
            _ => {
                if cur != "-" {
                    r.push(std::mem::replace(&mut cur, String::from("-")));
                }
                r.extend(spell(o, v)[0].clone());
            }
        }
    }
    if cur != "-" {
        r.push(cur);
    }
    r
}
fn x37(c: &mut Ctx) {
    let texts: [&[u8]; 2] = [b"banana", b"0011000x\nab"];
    let full = c.b(3, 4);
    for (pi, name) in ALL.iter().enumerate() {
        let t = table(pi);
        for ch in choices(t) {
            // a from-list without a to-list of its length is refused, in every spelling
            let canon: Args = ch.iter().flat_map(|&(k, v)| spell(&t[k], v)[0].clone()).collect();
            for (ti, text) in texts.iter().enumerate() {
                if ti > 0 && (!t.iter().any(|o| o.s == "i") || ch.len() > 2 && !c.thorough) {
                    continue;
                }
                let mut one = |c: &mut Ctx, a: Args| {
                    if a != canon {
                        c.case("same", &[pi as i64], &[text, &join(&canon), &join(&a)])
                    }
                };
                if ch.len() <= full {
                    c.space("all orders and spellings");
                    for ord in permutations(ch.len()) {
                        let sp: Vec<Vec<Args>> = ord.iter().map(|&i| spell(&t[ch[i].0], ch[i].1)).collect();
                        let total: usize = sp.iter().map(|s| s.len()).product();
                        for mut x in 0..total {
                            let mut a = vec![];
                            for s in &sp {
                                a.extend(s[x % s.len()].clone());
                                x /= s.len();
                            }
                            one(c, a);
                        }
                    }
                } else {
                    c.space("many options, uniform spellings");
                    for ord in rotations(ch.len()) {
                        for style in 0..9 {
                            one(c, ord.iter().flat_map(|&i| { let s = spell(&t[ch[i].0], ch[i].1); s[style % s.len()].clone() }).collect());
                        }
                    }
                }
                c.space("clusters of short options");
                for ord in if ch.len() <= full { permutations(ch.len()) } else { rotations(ch.len()) } {
                    one(c, clustered(t, &ch, &ord));
                }
            }
        }
        c.space("malformed command lines");
        let mut must: Args = vec![];
        for o in t.iter().filter(|o| o.required) {
            must.extend(spell(o, 0)[0].clone());
        }
        if *name == "enumerate" {
            must = vec!["2".into(), "2".into()];
        }
        // malformed pieces, and the options they must not meet (since the pieces contain them)
        let mut bad: Vec<(Args, Option<usize>)> = vec![];
        for x in ["--nonsense", "-Z", "--nonsense=1", "-", "--prefixlengt", "---", "-9"] {
            bad.push((vec![x.to_string()], None));
        }
        if *name == "enumerate" {
            bad.push((vec!["2".into(), "2".into()], None));
        } else {
            bad.push((vec!["stray".to_string()], None));
            bad.push((vec!["--".to_string(), "stray".to_string()], None));
        }
        for (k, o) in t.iter().enumerate() {
            let names: Vec<String> =
                [("-", o.s), ("--", o.l)].iter().filter(|x| !x.1.is_empty()).map(|x| format!("{}{}", x.0, x.1)).collect();
            match &o.k {
                Flag => {
                    for n in names.iter().filter(|n| n.starts_with("--")) {
                        bad.push((vec![format!("{}=1", n)], Some(k)));
                        bad.push((vec![format!("{}=true", n)], Some(k)));
                    }
                    for n in &names {
                        for m in &names {
                            bad.push((vec![n.clone(), m.clone()], Some(k)));
                        }
                    }
                }
                Val(vs, bs) => {
                    for n in &names {
                        for b in *bs {
                            bad.push((vec![format!("{}={}", n, b)], Some(k)));
                            if !b.starts_with('-') {
                                bad.push((vec![n.clone(), b.to_string()], Some(k)));
                            }
                        }
                        for m in &names {
                            bad.push((vec![n.clone(), vs[0].into(), m.clone(), vs[vs.len() - 1].into()], Some(k)));
                        }
                    }
                }
                List(_, _, bs) => {
                    for n in &names {
                        for b in *bs {
                            bad.push((vec![n.clone(), b.to_string()], Some(k)));
                            bad.push((vec![format!("{}={}", n, b)], Some(k)));
                        }
                    }
                }
            }
        }
        let mut emit = |c: &mut Ctx, a: &[&[String]]| {
            let a: Args = a.iter().flat_map(|x| x.iter().cloned()).collect();
            c.case("bad", &[pi as i64], &[texts[0], &join(&a)]);
        };
        for (b, ex) in &bad {
            let mut m: Args = vec![];
            for (k, o) in t.iter().enumerate() {
                if o.required && *ex != Some(k) {
                    m.extend(spell(o, 0)[0].clone());
                }
            }
            if *name == "enumerate" {
                m = must.clone();
            }
            emit(c, &[b, &m]);
            if *name != "enumerate" || b.len() == 1 {
                emit(c, &[&m, b]);
            }
            for (k, o) in t.iter().enumerate() {
                if *ex == Some(k) || o.required {
                    continue;
                }
                for v in 0..values(o) {
                    for s in spell(o, v) {
                        emit(c, &[&m, &s, b]);
                        // after `--` everything is positional, all the more malformed
                        emit(c, &[&m, b, &s]);
                    }
                }
            }
        }
        // values left out, at the end or before another option
        for (k, o) in t.iter().enumerate() {
            if let Flag = o.k {
                continue;
            }
            let mut m: Args = vec![];
            for (j, q) in t.iter().enumerate() {
                if q.required && j != k {
                    m.extend(spell(q, 0)[0].clone());
                }
            }
            for n in [("-", o.s), ("--", o.l)].iter().filter(|x| !x.1.is_empty()).map(|x| format!("{}{}", x.0, x.1)) {
                emit(c, &[&m, &[n.clone()]]);
                for (j, q) in t.iter().enumerate() {
                    if j == k || q.required {
                        continue;
                    }
                    for s in spell(q, 0) {
                        emit(c, &[&m, &[n.clone()], &s]);
                        emit(c, &[&m, &s, &[n.clone()]]);
                    }
                }
            }
        }
        // required options left out
        let req: Vec<usize> = (0..t.len()).filter(|&k| t[k].required).collect();
        for mask in 0..(1usize << req.len()) - 1 {
            let mut m: Args = vec![];
            for (j, &k) in req.iter().enumerate() {
                if mask >> j & 1 == 1 {
                    m.extend(spell(&t[k], 0)[0].clone());
                }
            }
            emit(c, &[&m]);
            for o in t.iter().filter(|o| !o.required) {
                for s in spell(o, 0) {
                    emit(c, &[&m, &s]);
                    emit(c, &[&s, &m]);
                }
            }
        }
        if *name == "enumerate" {
            for a in [&[][..], &["2"], &["x", "2"], &["2", "x"], &["2", "2", "x"], &["-1", "2"], &["2", "-1"], &["2.5", "1"], &["", "1"], &["2", ""], &["2", "2", "3", "4"], &["18446744073709551617", "1"], &["2", "18446744073709551617"]] {
                let a: Args = a.iter().map(|s| s.to_string()).collect();
                emit(c, &[&a]);
            }
        }
    }
    c.space("help and version");
    for pi in 0..ALL.len() {
        for x in ["-h", "--help", "-V", "--version"] {
            c.case("help", &[pi as i64], &[texts[0], x.as_bytes()]);
            if table(pi).iter().any(|o| o.s == "p") {
                c.case("help", &[pi as i64], &[texts[0], &join(&["-p".into(), "5".into(), x.into()])]);
            }
        }
    }
}
type Last = Option<((usize, Vec<u8>, Vec<u8>), (Out, Option<Vec<u8>>, String))>;
thread_local! { static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new(None) }; }
const OLD: &[u8] = b"an old file";
fn run(env: &mut Env, pi: usize, text: &[u8], args: &Args) -> Result<(Out, Option<Vec<u8>>, String), Fail> {
    let (fin, fout) = (env.file("cli-in"), env.file("cli-out"));
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    std::fs::write(&fin, text).map_err(infra)?;
    std::fs::write(&fout, OLD).map_err(infra)?;
    let a: Vec<String> = args.iter().map(|s| s.replace("@IN", &fin).replace("@OUT", &fout)).collect();
    let b: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    // on standard input a different text, so that ignoring -i is visible
    let input: Vec<u8> = if args.iter().any(|s| s.contains("@IN")) { b"other".to_vec() } else { text.to_vec() };
    let o = env.run(ALL[pi], &Req::new(&b, &input))?;
    let f = std::fs::read(&fout).ok();
    Ok((o, f, format!("{} {}", ALL[pi], a.iter().map(|s| if s.is_empty() { "''".to_string() } else { s.clone() }).collect::<Vec<_>>().join(" "))))
}
fn j37(env: &mut Env, c: &Case) -> R {
    let pi = c.num(0) as usize;
    let text = &c.words[0];
    match c.kind.as_str() {
        "same" => {
            // consecutive cases share their canonical command line
            let key = (pi, text.clone(), c.words[1].clone());
            let hit = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == key).map(|x| x.1.clone()));
            let (o, f, t) = match hit {
                Some(x) => x,
                None => {
                    let x = run(env, pi, text, &split(&c.words[1]))?;
                    LAST.with(|l| *l.borrow_mut() = Some((key, x.clone())));
                    x
                }
            };
            let (p, g, u) = run(env, pi, text, &split(&c.words[2]))?;
            ensure!(
                o.exit == p.exit && (same(&o.stdout, &p.stdout) || ALL[pi] == "randomstring" && o.stdout.len() == p.stdout.len()),
                "on {}: {}: {}, but {}: {}",
                show(text), u, p.describe(), t, o.describe()
            );
            let s = |x: &Option<Vec<u8>>| x.as_ref().map(|x| show(x)).unwrap_or("nothing".into());
            let f_is_g = if ALL[pi] == "randomstring" { f.as_ref().map(|x| x.len()) == g.as_ref().map(|x| x.len()) } else { f == g };
            ensure!(f_is_g, "on {}: {} leaves {} in the output file, but {} leaves {}", show(text), u, s(&g), t, s(&f));
            env.seen(&(o.exit, o.stdout.len(), f));
        }
        "bad" => {
            let (o, f, t) = run(env, pi, text, &split(&c.words[1]))?;
            ensure!(!o.ok(), "the malformed command line {} is accepted: {}", t, o.describe());
            ensure!(!o.hung(), "{}: {}", t, o.describe());
            ensure!(o.stdout.is_empty(), "the malformed command line {} gives output: {}", t, o.describe());
            ensure!(f.as_deref() == Some(OLD), "the malformed command line {} changes the output file", t);
            env.seen(&(pi, o.exit));
        }
        _ => {
            let (o, _, t) = run(env, pi, text, &split(&c.words[1]))?;
            ensure!(o.ok() && !o.stdout.is_empty(), "{}: {}", t, o.describe());
            ensure!(!o.stdout.starts_with(b"RESULT"), "{} computes something: {}", t, o.describe());
            env.seen(&(pi, o.stdout));
        }
    }
    Ok(())
}
