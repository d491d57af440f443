/* LD_PRELOAD shim: turns a real, unmodified program binary into a fork server whose
 * environment (argv, env, stdin, read/write/open answers, entropy) is chosen by the explorer.
 *
 * Every execution is a fresh fork taken before main(), so executions never influence each other.
 * Every read/write/open on stdin, stdout or a file below MC_SCRATCH is a "choice point": its
 * default answer is the one of the real kernel, an entry of the script replaces it by a
 * deviation (short transfer, EINTR, EIO, ENOSPC, EACCES).
 */
#undef _FORTIFY_SOURCE
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#define FD_CTL 200
#define FD_ST 201
#define FD_SHM 202
#define FD_IN 203
#define FD_OUT 204
#define FD_ERR 205

#define MAX_ARGV_BLOB 131072
#define MAX_ENV_BLOB 4096
#define MAX_SCRIPT 256
#define MAX_TRACE 65536

struct script_entry { uint32_t index, action, arg; };
struct trace_entry { uint8_t op, cls, action, pad; uint32_t req; int32_t ret; };

struct shm {
    uint32_t argc, envc;
    uint32_t stdin_mode;  /* 0 regular file, 1 pipe, 2 closed, 3 directory, 4 empty; the text waits in a named pipe */
    uint32_t stdout_mode; /* 0 regular file, 1 /dev/full, 2 closed pipe */
    uint32_t max_read, max_write; /* 0: unlimited */
    uint32_t n_script, cpu_limit, wall_limit, sticky;
    uint64_t entropy;
    uint32_t trace_n, diverged;
    uint64_t outside; /* attempts to open files for writing outside of the scratch directory, all refused */
    char outside_name[256];
    uint64_t horizon; /* nonzero: the program is ended after the write that completes so many lines of standard output */
    uint64_t clock_step; /* nanoseconds by which the clock advances whenever the program looks at it */
    char argv[MAX_ARGV_BLOB];
    char env[MAX_ENV_BLOB];
    struct script_entry script[MAX_SCRIPT];
    struct trace_entry trace[MAX_TRACE];
};

enum { OP_READ = 1, OP_WRITE = 2, OP_OPEN = 3 };
enum { CLS_NONE = 0, CLS_STDIN = 1, CLS_STDOUT = 2, CLS_INFILE = 3, CLS_OUTFILE = 4 };
enum { ACT_NONE = 0, ACT_SHORT = 1, ACT_EINTR = 2, ACT_EIO = 3, ACT_ENOSPC = 4, ACT_EACCES = 5 };

static struct shm *S;
static int active; /* only in the child running the program */
static uint8_t fdclass[1024];
static char scratch[512];
static size_t scratch_len;
static uint64_t rng_state, clock_calls;
static char *fifo_text; /* what the writer of the named pipe has to say (mode 4) */
static size_t fifo_len;
static uint64_t lines_out;
static uint32_t sticky_action; /* persistent failure of the output device */

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_close)(int);

static void resolve(void) {
    if (r_read) return;
    r_write = dlsym(RTLD_NEXT, "write");
    r_readv = dlsym(RTLD_NEXT, "readv");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_pread = dlsym(RTLD_NEXT, "pread64");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
    r_open = dlsym(RTLD_NEXT, "open64");
    r_openat = dlsym(RTLD_NEXT, "openat64");
    r_close = dlsym(RTLD_NEXT, "close");
    r_read = dlsym(RTLD_NEXT, "read");
}

static int cls_of(int fd) { return (active && fd >= 0 && fd < 1024) ? fdclass[fd] : CLS_NONE; }

/* returns the action for this choice point and its argument; allocates the trace slot */
static uint32_t point(int op, int cls, size_t req, uint32_t *arg, uint32_t *slot) {
    uint32_t i = S->trace_n++;
    *slot = i;
    uint32_t act = ACT_NONE;
    *arg = 0;
    for (uint32_t k = 0; k < S->n_script && k < MAX_SCRIPT; k++)
        if (S->script[k].index == i) { act = S->script[k].action; *arg = S->script[k].arg; }
    if (act == ACT_NONE && sticky_action && op == OP_WRITE) act = sticky_action;
    if (S->sticky && op == OP_WRITE && (act == ACT_ENOSPC || act == ACT_EIO)) sticky_action = act;
    if (i < MAX_TRACE) {
        S->trace[i].op = op; S->trace[i].cls = cls; S->trace[i].action = act;
        S->trace[i].req = req > 0xffffffffu ? 0xffffffffu : req; S->trace[i].ret = 0;
    }
    return act;
}
static void done(uint32_t slot, long ret) {
    if (slot < MAX_TRACE) S->trace[slot].ret = (int32_t)ret;
}
static int act_errno(uint32_t act) {
    switch (act) {
    case ACT_EINTR: return EINTR;
    case ACT_EIO: return EIO;
    case ACT_ENOSPC: return ENOSPC;
    case ACT_EACCES: return EACCES;
    }
    return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
    resolve();
    int c = cls_of(fd);
    if (!c) return r_read(fd, buf, n);
    uint32_t arg, slot, act = point(OP_READ, c, n, &arg, &slot);
    int e = act_errno(act);
    if (e) { done(slot, -e); errno = e; return -1; }
    size_t m = n;
    if (S->max_read && m > S->max_read) m = S->max_read;
    if (act == ACT_SHORT && arg && m > arg) m = arg;
    ssize_t r = r_read(fd, buf, m);
    done(slot, r < 0 ? -errno : r);
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    resolve();
    int c = cls_of(fd);
    if (!c) return r_write(fd, buf, n);
    uint32_t arg, slot, act = point(OP_WRITE, c, n, &arg, &slot);
    int e = act_errno(act);
    if (e) { done(slot, -e); errno = e; return -1; }
    size_t m = n;
    if (S->max_write && m > S->max_write) m = S->max_write;
    if (act == ACT_SHORT && arg && m > arg) m = arg;
    ssize_t r = r_write(fd, buf, m);
    done(slot, r < 0 ? -errno : r);
    if (S->horizon && c == CLS_STDOUT) {
        for (ssize_t k = 0; k < r; k++) lines_out += ((const char *)buf)[k] == '\n';
        if (lines_out >= S->horizon) _exit(0);
    }
    return r;
}
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    resolve();
    if (!cls_of(fd)) return r_readv(fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    resolve();
    if (!cls_of(fd)) return r_writev(fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
static ssize_t pread_common(int fd, void *buf, size_t n, off_t off) {
    resolve();
    int c = cls_of(fd);
    if (!c) return r_pread(fd, buf, n, off);
    uint32_t arg, slot, act = point(OP_READ, c, n, &arg, &slot);
    int e = act_errno(act);
    if (e) { done(slot, -e); errno = e; return -1; }
    size_t m = n;
    if (S->max_read && m > S->max_read) m = S->max_read;
    if (act == ACT_SHORT && arg && m > arg) m = arg;
    ssize_t r = r_pread(fd, buf, m, off);
    done(slot, r < 0 ? -errno : r);
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread_common(fd, b, n, o); }
static ssize_t pwrite_common(int fd, const void *buf, size_t n, off_t off) {
    resolve();
    int c = cls_of(fd);
    if (!c) return r_pwrite(fd, buf, n, off);
    uint32_t arg, slot, act = point(OP_WRITE, c, n, &arg, &slot);
    int e = act_errno(act);
    if (e) { done(slot, -e); errno = e; return -1; }
    size_t m = n;
    if (S->max_write && m > S->max_write) m = S->max_write;
    if (act == ACT_SHORT && arg && m > arg) m = arg;
    ssize_t r = r_pwrite(fd, buf, m, off);
    done(slot, r < 0 ? -errno : r);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite_common(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite_common(fd, b, n, o); }

static int open_common(int dir, const char *path, int flags, mode_t mode, int at) {
    resolve();
    if (active && scratch_len && path[0] == '/' && (flags & O_ACCMODE) != O_RDONLY && strncmp(path, scratch, scratch_len) != 0 &&
        strncmp(path, "/dev/", 5) != 0) {
        if (!S->outside++) snprintf(S->outside_name, sizeof S->outside_name, "%s", path);
        errno = EACCES;
        return -1;
    }
    if (!active || scratch_len == 0 || (strncmp(path, scratch, scratch_len) != 0 && strcmp(path, "/dev/stdin") != 0))
        return at ? r_openat(dir, path, flags, mode) : r_open(path, flags, mode);
    int c = (flags & O_ACCMODE) == O_RDONLY ? CLS_INFILE : CLS_OUTFILE;
    uint32_t arg, slot, act = point(OP_OPEN, c, 0, &arg, &slot);
    int e = act_errno(act);
    if (e) { done(slot, -e); errno = e; return -1; }
    struct stat st;
    int fifo = c == CLS_INFILE && S->stdin_mode == 4 && stat(path, &st) == 0 && S_ISFIFO(st.st_mode);
    if (fifo) flags |= O_NONBLOCK; /* plays both ends: reader first, then the writer, which says all and closes */
    int fd = at ? r_openat(dir, path, flags, mode) : r_open(path, flags, mode);
    if (fifo && fd >= 0) {
        int w = r_open(path, O_WRONLY, 0);
        if (w < 0 || (fifo_len > 60000 && fcntl(w, F_SETPIPE_SZ, 1 << 20) < (int)fifo_len)) _exit(122);
        size_t k = 0;
        while (k < fifo_len) { ssize_t r = r_write(w, fifo_text + k, fifo_len - k); if (r <= 0) _exit(123); k += r; }
        r_close(w);
        fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_NONBLOCK);
        fifo_len = 0; /* a second opening finds an empty pipe, as it would with a writer that is done */
    }
    done(slot, fd < 0 ? -errno : 0);
    if (fd >= 0 && fd < 1024) fdclass[fd] = c;
    return fd;
}
#define OPEN_MODE \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPEN_MODE return open_common(0, path, flags, mode, 0); }
int open64(const char *path, int flags, ...) { OPEN_MODE return open_common(0, path, flags, mode, 0); }
int openat(int d, const char *path, int flags, ...) { OPEN_MODE return open_common(d, path, flags, mode, 1); }
int openat64(int d, const char *path, int flags, ...) { OPEN_MODE return open_common(d, path, flags, mode, 1); }

int close(int fd) {
    resolve();
    if (active && fd > 2 && fd < 1024) fdclass[fd] = 0;
    return r_close(fd);
}

/* entropy (hash seeds of HashMap) is an explorer-chosen value, not a real random number */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    uint8_t *p = buf;
    for (size_t i = 0; i < n; i++) {
        rng_state += 0x9e3779b97f4a7c15ull;
        uint64_t z = rng_state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        p[i] = (uint8_t)(z ^ (z >> 31));
    }
    return (ssize_t)n;
}

/* so is the time: executions that differ in their timing are reproducible */
int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*real)(clockid_t, struct timespec *);
    if (!active) {
        if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
        return real(id, ts);
    }
    uint64_t t = ++clock_calls * S->clock_step;
    ts->tv_sec = 1700000000 + t / 1000000000u;
    ts->tv_nsec = t % 1000000000u;
    return 0;
}

typedef int (*main_t)(int, char **, char **);
static main_t real_main;

static void setup_child(int *argc, char ***argv) {
    struct rlimit rl;
    rl.rlim_cur = S->cpu_limit; rl.rlim_max = S->cpu_limit + 1;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 3ull << 30;
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 256ull << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    struct itimerval it = {{0, 0}, {S->wall_limit, 0}};
    setitimer(ITIMER_REAL, &it, 0);

    /* standard streams */
    if (S->stdin_mode == 0) {
        lseek(FD_IN, 0, SEEK_SET);
        dup2(FD_IN, 0);
    } else if (S->stdin_mode == 1) {
        int p[2];
        if (pipe(p)) _exit(121);
        off_t size = lseek(FD_IN, 0, SEEK_END);
        if (size > 60000 && fcntl(p[1], F_SETPIPE_SZ, 1 << 20) < size) _exit(122);
        char *m = size ? mmap(0, size, PROT_READ, MAP_SHARED, FD_IN, 0) : 0;
        off_t w = 0;
        while (w < size) { ssize_t r = r_write(p[1], m + w, size - w); if (r <= 0) _exit(123); w += r; }
        r_close(p[1]);
        dup2(p[0], 0);
        r_close(p[0]);
    } else if (S->stdin_mode == 3) {
        int d = r_open("/", O_RDONLY | O_DIRECTORY, 0);
        dup2(d, 0);
        r_close(d);
    } else if (S->stdin_mode == 4) {
        off_t size = lseek(FD_IN, 0, SEEK_END);
        fifo_len = size;
        fifo_text = size ? mmap(0, size, PROT_READ, MAP_SHARED, FD_IN, 0) : 0;
        int d = r_open("/dev/null", O_RDONLY, 0);
        dup2(d, 0);
        r_close(d);
    } else
        r_close(0);
    if (ftruncate(FD_OUT, 0) || ftruncate(FD_ERR, 0)) _exit(124);
    lseek(FD_OUT, 0, SEEK_SET);
    lseek(FD_ERR, 0, SEEK_SET);
    dup2(FD_ERR, 2);
    if (S->stdout_mode == 1) {
        int d = r_open("/dev/full", O_WRONLY, 0);
        dup2(d, 1);
        r_close(d);
    } else if (S->stdout_mode == 2) {
        int p[2];
        if (pipe(p)) _exit(125);
        r_close(p[0]);
        dup2(p[1], 1);
        r_close(p[1]);
    } else
        dup2(FD_OUT, 1);
    for (int f = FD_CTL; f <= FD_ERR; f++) r_close(f);

    static char *args[16384];
    char *p = S->argv;
    uint32_t n = S->argc < 16380 ? S->argc : 16380;
    for (uint32_t i = 0; i < n; i++) { args[i] = strdup(p); p += strlen(p) + 1; }
    args[n] = 0;
    *argc = n; *argv = args;
    p = S->env;
    for (uint32_t i = 0; i < S->envc; i++) { putenv(strdup(p)); p += strlen(p) + 1; }
    memset(fdclass, 0, sizeof fdclass);
    fdclass[0] = CLS_STDIN;
    fdclass[1] = CLS_STDOUT;
    rng_state = S->entropy;
    clock_calls = 0;
    sticky_action = 0;
    active = 1;
}

static int server_main(int argc, char **argv, char **envp) {
    resolve();
    if (!getenv("MC_SERVER")) return real_main(argc, argv, envp);
    char *s = getenv("MC_SCRATCH");
    if (s) { snprintf(scratch, sizeof scratch, "%s", s); scratch_len = strlen(scratch); }
    S = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, FD_SHM, 0);
    if (S == MAP_FAILED) _exit(120);
    uint32_t hello = sizeof(struct shm);
    if (r_write(FD_ST, &hello, 4) != 4) _exit(120);
    for (;;) {
        char c;
        ssize_t r = r_read(FD_CTL, &c, 1);
        if (r < 0 && errno == EINTR) continue;
        if (r != 1) _exit(0);
        S->trace_n = 0; S->diverged = 0; S->outside = 0; S->outside_name[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            char **av; int ac;
            setup_child(&ac, &av);
            /* the C runtime calls exit() with main's result, which we do by hand because
             * this frame sits below the real one */
            exit(real_main(ac, av, environ));
        }
        int st = -1;
        if (pid > 0)
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (r_write(FD_ST, &st, 4) != 4) _exit(0);
    }
}

typedef int (*start_t)(main_t, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
int __libc_start_main(main_t m, int argc, char **argv, void (*init)(void), void (*fini)(void),
                      void (*rtld_fini)(void), void *stack_end) {
    start_t real = (start_t)dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return real(server_main, argc, argv, init, fini, rtld_fini, stack_end);
}
