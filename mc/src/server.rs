//! Client side of the fork server (see /verif/shim/shim.c): runs the real program binaries built
//! from /repo, one fresh process per execution, with every answer of the environment chosen here.
use std::ffi::CString;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

pub const OP_READ: u8 = 1;
pub const OP_WRITE: u8 = 2;
pub const OP_OPEN: u8 = 3;
pub const ACT_SHORT: u32 = 1;
pub const ACT_EINTR: u32 = 2;
pub const ACT_EIO: u32 = 3;
pub const ACT_ENOSPC: u32 = 4;
pub const ACT_EACCES: u32 = 5;

const MAX_ARGV_BLOB: usize = 131072;
const MAX_ENV_BLOB: usize = 4096;
const MAX_SCRIPT: usize = 256;
const MAX_TRACE: usize = 65536;
const MAX_ARGS: usize = 16000;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Script {
    pub index: u32,
    pub action: u32,
    pub arg: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point {
    pub op: u8,
    pub cls: u8,
    pub action: u8,
    pub pad: u8,
    pub req: u32,
    pub ret: i32,
}

#[repr(C)]
struct Shm {
    argc: u32,
    envc: u32,
    stdin_mode: u32,
    stdout_mode: u32,
    max_read: u32,
    max_write: u32,
    n_script: u32,
    cpu_limit: u32,
    wall_limit: u32,
    sticky: u32,
    entropy: u64,
    trace_n: u32,
    diverged: u32,
    outside: u64,
    outside_name: [u8; 256],
    horizon: u64,
    clock_step: u64,
    argv: [u8; MAX_ARGV_BLOB],
    env: [u8; MAX_ENV_BLOB],
    script: [Script; MAX_SCRIPT],
    trace: [Point; MAX_TRACE],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stdin {
    File = 0,
    Pipe = 1,
    Closed = 2,
    Directory = 3,
    /// nothing on standard input; the text is what comes out of the named pipe opened by the program
    Fifo = 4,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stdout {
    File = 0,
    Full = 1,
    BrokenPipe = 2,
}

#[derive(Clone, Debug)]
pub struct Req<'a> {
    pub args: Vec<Vec<u8>>,
    pub env: Vec<String>,
    pub input: &'a [u8],
    pub stdin: Stdin,
    pub stdout: Stdout,
    pub max_read: u32,
    pub max_write: u32,
    pub script: Vec<Script>,
    pub sticky: bool,
    pub entropy: u64,
    /// lines of standard output after which the program is ended, 0: never
    pub horizon: u64,
    /// nanoseconds by which the clock advances at each look
    pub clock_step: u64,
    pub want_trace: bool,
    /// CPU seconds
    pub cpu: u32,
}
impl<'a> Req<'a> {
    pub fn new(args: &[&str], input: &'a [u8]) -> Req<'a> {
        Req {
            args: args.iter().map(|s| s.as_bytes().to_vec()).collect(),
            env: vec![],
            input,
            stdin: Stdin::File,
            stdout: Stdout::File,
            max_read: 0,
            max_write: 0,
            script: vec![],
            sticky: false,
            entropy: 1,
            horizon: 0,
            clock_step: 1000,
            want_trace: false,
            cpu: 20,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}
#[derive(Clone, Debug)]
pub struct Out {
    pub exit: Exit,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub trace: Vec<Point>,
    /// the first file outside of the scratch directory that the program tried to open for writing
    pub outside: Option<String>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.exit == Exit::Code(0)
    }
    pub fn hung(&self) -> bool {
        // RLIMIT_CPU (SIGXCPU/SIGKILL) or the wall-clock alarm
        matches!(self.exit, Exit::Signal(libc::SIGXCPU) | Exit::Signal(libc::SIGALRM) | Exit::Signal(libc::SIGKILL))
    }
    pub fn describe(&self) -> String {
        let err = String::from_utf8_lossy(&self.stderr).to_string();
        let err: String = err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" / ");
        format!("exit={:?} stdout={} stderr=[{}]", self.exit, crate::util::show(&self.stdout), err.chars().take(300).collect::<String>())
    }
}

pub struct Server {
    child: Child,
    ctl: i32,
    st: i32,
    shm: *mut Shm,
    fd_in: i32,
    fd_out: i32,
    fd_err: i32,
    pub runs: u64,
}
unsafe impl Send for Server {}

fn memfd(name: &str) -> i32 {
    let c = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    fd
}
fn slurp(fd: i32) -> Vec<u8> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 || st.st_size == 0 {
            return vec![];
        }
        let mut v = vec![0u8; st.st_size as usize];
        let mut off = 0usize;
        while off < v.len() {
            let r = libc::pread(fd, v[off..].as_mut_ptr() as *mut _, v.len() - off, off as i64);
            if r <= 0 {
                break;
            }
            off += r as usize;
        }
        v.truncate(off);
        v
    }
}

impl Server {
    pub fn start(binary: &std::path::Path, shim: &std::path::Path, scratch: &std::path::Path) -> Result<Server, String> {
        unsafe {
            let shm_fd = memfd("shm");
            let size = std::mem::size_of::<Shm>();
            assert_eq!(libc::ftruncate(shm_fd, size as i64), 0);
            let shm = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, shm_fd, 0) as *mut Shm;
            assert!(shm as isize != -1);
            let (fd_in, fd_out, fd_err) = (memfd("in"), memfd("out"), memfd("err"));
            let mut ctl = [0i32; 2];
            let mut st = [0i32; 2];
            assert_eq!(libc::pipe2(ctl.as_mut_ptr(), libc::O_CLOEXEC), 0);
            assert_eq!(libc::pipe2(st.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let fds = [(ctl[0], 200), (st[1], 201), (shm_fd, 202), (fd_in, 203), (fd_out, 204), (fd_err, 205)];
            let mut cmd = Command::new(binary);
            let cwd = scratch.join("cwd");
            std::fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
            cmd.current_dir(&cwd);
            cmd.env_clear()
                .env("LD_PRELOAD", shim)
                .env("MC_SERVER", "1")
                .env("MC_SCRATCH", scratch)
                .env("RUST_BACKTRACE", "0")
                .env("PATH", "/usr/bin:/bin")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null());
            cmd.pre_exec(move || {
                // first move everything out of the way of the target numbers
                let mut tmp = [0i32; 6];
                for (i, (fd, _)) in fds.iter().enumerate() {
                    tmp[i] = libc::fcntl(*fd, libc::F_DUPFD, 300);
                }
                for (i, (_, t)) in fds.iter().enumerate() {
                    libc::dup2(tmp[i], *t);
                    libc::close(tmp[i]);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let child = cmd.spawn().map_err(|e| format!("cannot start {:?}: {}", binary, e))?;
            libc::close(ctl[0]);
            libc::close(st[1]);
            libc::close(shm_fd);
            let mut s = Server { child, ctl: ctl[1], st: st[0], shm, fd_in, fd_out, fd_err, runs: 0 };
            let hello = s.read_u32()?;
            if hello as usize != size {
                return Err(format!("shim layout mismatch {} vs {}", hello, size));
            }
            Ok(s)
        }
    }
    fn read_u32(&mut self) -> Result<u32, String> {
        let mut b = [0u8; 4];
        let mut off = 0;
        while off < 4 {
            crate::util::beat();
            // (the program's own limits end it, sooner or later)
            let mut pfd = libc::pollfd { fd: self.st, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut pfd, 1, 1000) } == 0 {
                continue;
            }
            let r = unsafe { libc::read(self.st, b[off..].as_mut_ptr() as *mut _, 4 - off) };
            if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if r <= 0 {
                return Err("fork server died".into());
            }
            off += r as usize;
        }
        Ok(u32::from_ne_bytes(b))
    }
    pub fn run(&mut self, name: &str, req: &Req) -> Result<Out, String> {
        unsafe {
            let s = &mut *self.shm;
            let mut blob = Vec::with_capacity(128);
            blob.extend_from_slice(name.as_bytes());
            blob.push(0);
            for a in &req.args {
                blob.extend_from_slice(a);
                blob.push(0);
            }
            assert!(blob.len() <= MAX_ARGV_BLOB && req.args.len() < MAX_ARGS, "argv too long");
            s.argv[..blob.len()].copy_from_slice(&blob);
            s.argc = req.args.len() as u32 + 1;
            blob.clear();
            for e in &req.env {
                blob.extend_from_slice(e.as_bytes());
                blob.push(0);
            }
            assert!(blob.len() <= MAX_ENV_BLOB);
            s.env[..blob.len()].copy_from_slice(&blob);
            s.envc = req.env.len() as u32;
            s.stdin_mode = req.stdin as u32;
            s.stdout_mode = req.stdout as u32;
            s.max_read = req.max_read;
            s.max_write = req.max_write;
            assert!(req.script.len() <= MAX_SCRIPT);
            s.n_script = req.script.len() as u32;
            for (i, e) in req.script.iter().enumerate() {
                s.script[i] = *e;
            }
            s.cpu_limit = req.cpu;
            s.wall_limit = 120;
            s.sticky = req.sticky as u32;
            s.entropy = req.entropy;
            s.horizon = req.horizon;
            s.clock_step = req.clock_step;
            // stdin contents
            if libc::ftruncate(self.fd_in, req.input.len() as i64) != 0 {
                return Err("ftruncate".into());
            }
            let mut off = 0;
            while off < req.input.len() {
                let r = libc::pwrite(self.fd_in, req.input[off..].as_ptr() as *const _, req.input.len() - off, off as i64);
                if r <= 0 {
                    return Err("pwrite stdin".into());
                }
                off += r as usize;
            }
            if libc::write(self.ctl, b"R".as_ptr() as *const _, 1) != 1 {
                return Err("fork server gone".into());
            }
            let st = self.read_u32()? as i32;
            self.runs += 1;
            let exit = if libc::WIFEXITED(st) {
                Exit::Code(libc::WEXITSTATUS(st))
            } else if libc::WIFSIGNALED(st) {
                Exit::Signal(libc::WTERMSIG(st))
            } else {
                return Err(format!("strange wait status {}", st));
            };
            if let Exit::Code(c) = exit {
                if (120..=125).contains(&c) {
                    return Err(format!("shim setup failed with {}", c));
                }
            }
            let outside = if s.outside > 0 {
                Some(String::from_utf8_lossy(s.outside_name.split(|&c| c == 0).next().unwrap()).to_string())
            } else {
                None
            };
            let n = if req.want_trace { (s.trace_n as usize).min(MAX_TRACE) } else { 0 };
            Ok(Out { exit, stdout: slurp(self.fd_out), stderr: slurp(self.fd_err), trace: s.trace[..n].to_vec(), outside })
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.ctl);
            libc::close(self.st);
            libc::munmap(self.shm as *mut _, std::mem::size_of::<Shm>());
            libc::close(self.fd_in);
            libc::close(self.fd_out);
            libc::close(self.fd_err);
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
