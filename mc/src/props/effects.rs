//! What programs leave behind: nothing but the output file they are told to write.
use super::delivery::*;
use super::*;
use crate::ensure;
use crate::server::*;
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};

pub const PROPS: &[Prop] = &[Prop {
    id: "C39",
    explore: x39,
    judge: j39,
    progs: EVERY,
    what: "programs x options x texts x input channels x output names; in each, every point of failure and every refused command line",
    bounds: "21 programs in 42 option forms; seven texts, one of 8193 bytes; input from standard input (file, pipe), file by absolute and relative name, named pipe; output to standard output, a new file, an existing longer file, a relative name, a file in a subdirectory; every read, write and open call (stratified choice where there are more than 24) failing with EIO, ENOSPC, EACCES; prefix option; unknown options, unusable values, missing input; RUST_LOG=trace; files called in, out, none, stdin, - and a.tmp lie around in the working directory and next to the named files",
    oracle: "contents, mode, modification time and kind of all files before the run; the trace of calls for what is read",
    fault: true,
}];

#[derive(PartialEq, Eq, Clone)]
struct Entry {
    mode: u32,
    mtime: (i64, i64),
    inode: u64,
    data: Option<Vec<u8>>,
}
type Tree = BTreeMap<String, Entry>;
fn tree(root: &std::path::Path, dir: &std::path::Path, t: &mut Tree) -> std::io::Result<()> {
    for e in std::fs::read_dir(dir)? {
        let p = e?.path();
        let m = std::fs::symlink_metadata(&p)?;
        let name = p.strip_prefix(root).unwrap().to_str().unwrap_or("?").to_string();
        let (d, f) = (m.is_dir(), m.is_file());
        // the modification time of a directory or pipe changes with use
        let mtime = if !f { (0, 0) } else { (m.mtime(), m.mtime_nsec()) };
        t.insert(name, Entry { mode: m.mode(), mtime, inode: m.ino(), data: if f { Some(std::fs::read(&p)?) } else { None } });
        if d {
            tree(root, &p, t)?;
        }
    }
    Ok(())
}
const INS: &[&str] = &["stdin", "pipe", "abs", "rel", "fifo"];
const OUTS: &[&str] = &["", "new", "out", "rel", "sub"];

fn x39(c: &mut Ctx) {
    for reads in [true, false] {
        c.space(if reads { "readers" } else { "generators" });
        each(reads, &mut |i, j, p| {
            let mut f = |w: &[u8], k: usize| {
                if !decodable(p, j, w) {
                    return;
                }
                for (a, _) in INS.iter().enumerate() {
                    for (b, _) in OUTS.iter().enumerate() {
                        if (!reads && a > 0) || (!p.o && b > 0) || (k > 0 && (a + b + k) % 2 == 1) {
                            continue;
                        }
                        c.case("run", &[i as i64, j as i64, a as i64, b as i64], &[w]);
                    }
                }
            };
            f(b"abracadabra", 0);
            if reads {
                f(b"", 1);
                f(b"a", 2);
                f(b"\0", 3);
                f(b"aab\nab\n", 4);
                f(b"\xff\x80a\xff", 5);
                if p.max >= 8193 {
                    f(&spaces::family(10, 8193), 0);
                }
            }
        });
    }
}
fn j39(env: &mut Env, c: &Case) -> R {
    let infra = |e: std::io::Error| Fail::Infra(e.to_string());
    let (p, j) = (&TABLE[c.num(0) as usize], c.num(1) as usize);
    let (way, out) = (INS[c.num(2) as usize], OUTS[c.num(3) as usize]);
    let text = &c.words[0];
    let root = env.scratch.clone();
    let mut job = Job::new(env, p, j, text, if way == "fifo" { CH_FIFO } else if way == "pipe" { CH_PIPE } else { CH_STDIN })?;
    let set = || -> std::io::Result<()> {
        for d in ["cwd", "sub"] {
            std::fs::create_dir_all(root.join(d))?;
            for f in ["in", "out", "none", "stdin", "-", "a.tmp", "out.tmp", "in.bwt"] {
                std::fs::write(root.join(d).join(f), format!("{} in {}", f, d))?;
            }
        }
        std::fs::create_dir_all(root.join("empty"))?;
        for f in ["out", "other", "none", "in~"] {
            std::fs::write(root.join(f), format!("old contents of {}, longer than many outputs are; {}", f, "x".repeat(100)))?;
        }
        std::fs::write(root.join("in"), if way == "abs" || way == "rel" { &text[..] } else { b"not the input" })?;
        std::fs::set_permissions(root.join("in"), std::fs::Permissions::from_mode(0o640))?;
        let _ = std::fs::remove_file(root.join("new"));
        Ok(())
    };
    set().map_err(infra)?;
    match way {
        "abs" => job.args.extend(["-i".to_string(), env.file("in")]),
        "rel" => job.args.extend(["--infilename".to_string(), "../in".to_string()]),
        _ => {}
    }
    if way == "abs" || way == "rel" {
        // something else on standard input, which is not to be read
        job.input = b"this is the standard input";
    }
    let named = match out {
        "" => None,
        "rel" => Some("cwd/out"),
        "sub" => Some("sub/out"),
        x => Some(x),
    };
    match out {
        "" => {}
        "rel" => job.args.extend(["-o".to_string(), "out".to_string()]),
        _ => job.args.push(format!("--outfilename={}", env.file(named.unwrap()))),
    }
    let before = {
        let mut t = Tree::new();
        tree(&root, &root, &mut t).map_err(infra)?;
        t
    };
    let mut last = before.clone();
    let mut judge = |env: &mut Env, job: &Job, s: &[Script]| -> Result<Out, Fail> {
        let o = job.run(env, s)?;
        let what = || format!("{}{}", job.text(), show_script(s, &o.trace));
        let mut t = Tree::new();
        tree(&root, &root, &mut t).map_err(infra)?;
        for (k, e) in &last {
            if Some(k.as_str()) == named {
                continue;
            }
            match t.get(k) {
                None => return bad(format!("{}: removes the file {}; {}", what(), k, o.describe())),
                Some(x) if x.data != e.data => {
                    return bad(format!("{}: changes the file {}; {}", what(), k, o.describe()));
                }
                Some(x) if x != e => return bad(format!("{}: touches the file {}; {}", what(), k, o.describe())),
                _ => {}
            }
        }
        for k in t.keys() {
            if Some(k.as_str()) != named && !last.contains_key(k) {
                return bad(format!("{}: creates the file {}; {}", what(), k, o.describe()));
            }
        }
        ensure!(o.outside.is_none(), "{}: opens the file {:?} for writing; {}", what(), o.outside, o.describe());
        let from_stdin = p.reads && (way == "stdin" || way == "pipe");
        for x in &o.trace {
            ensure!(
                !(x.op == OP_READ && x.cls == 1 && !from_stdin),
                "{}: reads standard input, which is not its input; {}",
                what(),
                o.describe()
            );
            ensure!(
                !(x.op == OP_OPEN && x.cls == 3 && (!p.reads || from_stdin)),
                "{}: opens a file for reading, although none is named; {}",
                what(),
                o.describe()
            );
        }
        last = t;
        Ok(o)
    };
    if endless(p) {
        for i in 0..2 {
            judge(env, &job, &[Script { index: i, action: ACT_EIO, arg: 0 }])?;
        }
        env.seen(&(p.name, j));
        return Ok(());
    }
    let o = judge(env, &job, &[])?;
    let n = o.trace.len();
    for i in 0..n {
        if !selected(i, n) {
            continue;
        }
        let acts: &[u32] = match o.trace[i].op {
            OP_READ => &[ACT_EIO],
            OP_WRITE => &[ACT_EIO, ACT_ENOSPC],
            _ => &[ACT_EACCES, ACT_EIO],
        };
        for &action in acts {
            judge(env, &job, &[Script { index: i as u32, action, arg: 0 }])?;
        }
    }
    for e in ["RUST_LOG=trace", "RUST_LOG=off"] {
        let mut k = job.clone();
        k.envs.push(e.into());
        judge(env, &k, &[])?;
    }
    for so in [Stdout::Full, Stdout::BrokenPipe] {
        let mut k = job.clone();
        k.stdout = so;
        judge(env, &k, &[])?;
    }
    if p.p {
        for q in [1, 3, 100] {
            let mut k = job.clone();
            k.prefix(q);
            judge(env, &k, &[])?;
        }
    }
    for bad_args in [&["--nonsense"][..], &["stray"], &["-p", "x"], &["--help"], &["--version"]] {
        let mut k = job.clone();
        k.args.extend(opts(bad_args));
        if p.reads || !endless(p) {
            judge(env, &k, &[])?;
        }
    }
    if way == "stdin" && p.reads {
        for f in [env.file("absent"), "absent".to_string()] {
            let mut k = job.clone();
            k.args.push(format!("--infilename={}", f));
            k.input = b"";
            // opens the file it is given; nothing else changes
            let o = k.run(env, &[])?;
            let mut t = Tree::new();
            tree(&root, &root, &mut t).map_err(infra)?;
            for (x, e) in &before {
                ensure!(Some(x.as_str()) == named || t.get(x) == Some(e), "{}: changes {}; {}", k.text(), x, o.describe());
            }
            for x in t.keys() {
                ensure!(Some(x.as_str()) == named || before.contains_key(x), "{}: creates {}; {}", k.text(), x, o.describe());
            }
        }
    }
    env.seen(&(p.name, j, way, out, n));
    Ok(())
}
