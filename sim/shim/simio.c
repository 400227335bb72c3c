/* The simulated machine the command-line decoder runs on: one file system holding one file, an
 * output and an error stream, a clock, and the memory allocator. Loaded in front of libc, it
 * answers the tool's calls from a plan that the simulator wrote into a shared mapping, and logs
 * each call there. It decides nothing itself: the plan holds every fault. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NOPS 8192
#define NSTAT 16
#define NLOG 65536
#define OUTCAP (80u << 20)
#define ERRCAP (1u << 20)
#define FILECAP (20u << 20)
#define MACHINE (2ull << 30)

enum { FULL = 0, SHORT = 1, EINTR_ = 2, FAIL = 3, ZERO = 4 };
struct op { uint32_t kind, arg; };
struct logent { uint32_t call, arg; int64_t ret; };
struct sim {
    /* the plan */
    uint32_t magic, step_cap;
    uint64_t file_len, file2_len;
    uint32_t swap_on, swap_at; /* after so many file calls the name means the second file; 2: nothing */
    uint32_t open_eintr, open_errno, is_dir, seek_errno;
    uint32_t n_read, n_out, n_err, n_stat;
    struct op read_rest, out_rest, err_rest;
    uint32_t alloc_mode, tty; /* bit n: descriptor n is a terminal */
    uint64_t alloc_at, alloc_quota;
    uint64_t stat_size[NSTAT];
    uint32_t stat_errno[NSTAT];
    int64_t clock_sec, mtime;
    uint64_t pace;      /* nanoseconds that pass with each call */
    int64_t jump;       /* by how many seconds the wall clock is set during the run */
    uint32_t jump_at;   /* after so many calls */
    uint32_t stored;    /* how the file system keeps the file: block counts, links, mask of what is known */
    uint32_t machine;   /* decides process number, random numbers and host name */
    uint32_t cpus;
    uint32_t mode, uid; /* the file's type and permissions; who runs the tool and owns the file */
    char env_val[64];   /* what a variable holds that the tool asks for and nobody set */
    char name[96]; /* what the file is called */
    struct op read_ops[NOPS], out_ops[NOPS], err_ops[NOPS];
    /* the log */
    uint32_t started, overflow, hang, nlog;
    uint64_t steps, last_fault_step;
    uint32_t opens, reads, seeks, stats, outs, errs;
    uint32_t f_open, f_open_eintr, f_read, f_read_eintr, f_read_short, f_stat, f_size, f_seek;
    uint32_t f_out, f_out_eintr, f_out_short, f_out_zero, f_err, f_err_eintr, f_err_short, f_alloc;
    uint32_t eof_seen, fail_at_eof;
    uint32_t f_swap, n_side, n_asked, pad_;
    uint64_t pace_calls, slept;
    uint64_t allocs, live, peak, max_req;
    uint64_t out_len, err_len, delivered;
    char side[8][96]; /* what the tool did besides reading its file and writing its streams */
    struct logent log[NLOG];
    uint8_t out[OUTCAP];
    uint8_t err[ERRCAP];
    uint8_t file[FILECAP];
    uint8_t file2[FILECAP];
};
static struct sim *S;
static int in_init;
static volatile int lock_;
static unsigned char kind_[1024]; /* 0 other, 1 the file, 2 standard output, 3 standard error */
static unsigned char ofd_[1024];  /* of the file: which opening of it */
static struct { uint64_t off; uint32_t second; } open_[256];
static uint32_t nopen, stat_n, eintr_n, file_calls;

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static void attach(void) {
    if (S || in_init)
        return;
    in_init = 1;
    /* the descriptor of the mapping is always 1000 */
    void *p = (void *)raw(SYS_mmap, 0, sizeof(struct sim), PROT_READ | PROT_WRITE, MAP_SHARED, 1000, 0);
    if ((long)p < 0 && (long)p > -4096)
        raw(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    raw(SYS_close, 1000, 0, 0, 0, 0, 0);
    kind_[1] = 2;
    kind_[2] = 3;
    S = p;
    if (S->magic != 0x51D0)
        raw(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    in_init = 0;
}
__attribute__((constructor)) static void start(void) {
    attach();
    S->started = 1;
}
static void enter(void) {
    attach();
    while (__sync_lock_test_and_set(&lock_, 1))
        raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static void leave(void) { __sync_lock_release(&lock_); }
static long note(uint32_t call, uint32_t arg, long r) {
    uint32_t i = S->nlog;
    if (i < NLOG) {
        S->log[i].call = call;
        S->log[i].arg = arg;
        S->log[i].ret = r;
        S->nlog = i + 1;
    }
    if (++S->steps > S->step_cap) {
        S->hang = 1;
        raw(SYS_exit_group, 97, 0, 0, 0, 0, 0);
    }
    return r;
}
static void faulted(uint32_t *c) {
    ++*c;
    S->last_fault_step = S->steps + 1;
}
/* A call that would leave a trace outside the tool's own streams: recorded, never carried out. */
static void side(const char *what, const char *path) {
    enter();
    uint32_t i = S->n_side++;
    if (i < 8) {
        size_t k = 0;
        for (; *what && k < 95; k++)
            S->side[i][k] = *what++;
        if (path)
            S->side[i][k < 95 ? k++ : 94] = ' ';
        for (; path && *path && k < 95; k++)
            S->side[i][k] = *path++;
        S->side[i][k] = 0;
    }
    leave();
}
/* Every call on the file may be the last before somebody replaces or removes it. */
static uint32_t version(void) {
    uint32_t v = S->swap_on && file_calls >= S->swap_at;
    if (v && S->swap_at && !S->f_swap)
        faulted(&S->f_swap);
    return v;
}
static uint64_t len_of(uint32_t second) { return second ? S->file2_len : S->file_len; }
/* The file may be reached through a symbolic link, which a replacement turns elsewhere. What the link
   leads to has a name of its own: /sim/@1 before, /sim/@2 afterwards; a plain file is also /sim/@0. */
static int link_(void) { return S->stored & 128; }
static int alias(const char *p) { return !strncmp(p, "/sim/@", 6) && p[6] && !p[7] && (p[6] == '0' ? !link_() : link_() && (p[6] == '1' || p[6] == '2')) ? p[6] : 0; }
/* the same name, made absolute or tidied: no empty or "." steps, the folder it is in put before it */
static size_t step(const char **p) {
    /* always called where a step begins */
    while (**p == '/' || (**p == '.' && ((*p)[1] == '/' || !(*p)[1])))
        ++*p;
    return strcspn(*p, "/");
}
static int tidied(const char *p) {
    const char *n = S->name;
    if (*p != '/')
        return 0;
    if (*n != '/') {
        char cwd[512];
        long k = raw(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0);
        if (k <= 0 || strncmp(p, cwd, k - 1) || (p[k - 1] && p[k - 1] != '/' && k > 2))
            return 0;
        p += k - 1;
    }
    for (;;) {
        size_t a = step(&p), b = step(&n);
        if (a != b || memcmp(p, n, a))
            return 0;
        if (!a)
            return 1;
        p += a, n += b;
    }
}
static int mine(const char *p) { return p && S && (!strcmp(p, S->name) || alias(p) || (S->started && tidied(p))); }
/* which of the two files a name means now, and whether it means one at all */
static uint32_t means(const char *p) { return alias(p) == '1' ? 0 : alias(p) == '2' ? 1 : version(); }
static int gone(const char *p) {
    uint32_t v = version();
    if (alias(p) == '1')
        return v && !(S->stored & 256);
    if (alias(p) == '2' && !v)
        return 1;
    return v && S->swap_on == 2;
}
/* /sim/ holds nothing but the file */
static int is_sim(const char *p) { return p && (!strncmp(p, "/sim/", 5) || mine(p)); }
static int kind(int fd) { return fd >= 0 && fd < 1024 ? kind_[fd] : 0; }

/* ---- opening ---- */
static long do_open(long dfd, const char *p, int flags, int mode) {
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
        if (strcmp(p, "/dev/null")) {
            side("open for writing", p);
            return ret(-EROFS);
        }
    }
    if (S && S->started && !mine(p) && *p && strncmp(p, "/proc/", 6) && strncmp(p, "/sys/", 5) && strcmp(p, "/dev/null") && strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random"))
        side("open", p);
    if (!is_sim(p)) {
        return ret(raw(SYS_openat, dfd, (long)p, flags, mode, 0, 0));
    }
    enter();
    long r;
    S->opens++;
    uint32_t v = means(p);
    if (eintr_n < S->open_eintr) {
        eintr_n++;
        faulted(&S->f_open_eintr);
        r = -EINTR;
    } else if (!mine(p) || gone(p))
        r = -ENOENT;
    else if (S->open_errno) {
        faulted(&S->f_open);
        r = -(long)S->open_errno;
    } else if (nopen >= 256)
        r = -EMFILE;
    else {
        r = raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY | (flags & O_CLOEXEC), 0, 0, 0);
        if (r >= 0 && r < 1024) {
            kind_[r] = 1;
            open_[nopen].off = 0;
            open_[nopen].second = v;
            ofd_[r] = nopen++;
        }
    }
    file_calls++;
    note(1, flags, r);
    leave();
    return ret(r);
}
#define MODE(last) int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int close(int fd) {
    if (kind(fd) == 1)
        kind_[fd] = 0;
    return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int dupd(int fd, long r) {
    if (r >= 0 && r < 1024) {
        kind_[r] = kind(fd);
        if (kind(fd) == 1)
            ofd_[r] = ofd_[fd];
    }
    return ret(r);
}
int dup(int fd) { return dupd(fd, raw(SYS_dup, fd, 0, 0, 0, 0, 0)); }
int dup2(int fd, int n) { return dupd(fd, raw(SYS_dup2, fd, n, 0, 0, 0, 0)); }
int dup3(int fd, int n, int f) { return dupd(fd, raw(SYS_dup3, fd, n, f, 0, 0, 0)); }
static int do_fcntl(int fd, int cmd, long arg) {
    long r = raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
        return dupd(fd, r);
    return ret(r);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- size and position ---- */
static long shown_size(uint64_t *size, int fd, const char *p) {
    enter();
    uint32_t i = stat_n++;
    long r = 0;
    uint64_t len = len_of(fd >= 0 ? open_[ofd_[fd]].second : means(p));
    *size = len;
    S->stats++;
    if (S->n_stat) {
        uint32_t k = i < S->n_stat ? i : S->n_stat - 1;
        if (S->stat_errno[k]) {
            r = -(long)S->stat_errno[k];
            faulted(&S->f_stat);
        } else {
            *size = S->stat_size[k];
            if (*size != len)
                faulted(&S->f_size);
        }
    }
    if (fd < 0 && gone(p))
        r = -ENOENT;
    file_calls++;
    note(2, (uint32_t)*size, r);
    leave();
    return r;
}
static void fill(struct stat *st, uint64_t size) {
    memset(st, 0, sizeof *st);
    st->st_mode = S->is_dir ? S_IFDIR | 0755 : S->mode;
    st->st_nlink = S->stored & 2 ? 0 : S->stored & 4 ? 3 : 1;
    st->st_ino = S->stored & 8 ? 0 : 12;
    st->st_dev = S->stored & 8 ? 0 : 2049;
    st->st_uid = st->st_gid = S->uid;
    st->st_mtime = st->st_ctime = st->st_atime = S->mtime;
    st->st_size = size;
    st->st_blksize = S->stored & 16 ? 512 : S->stored & 32 ? 1 << 20 : 4096;
    st->st_blocks = S->stored & 1 ? 0 : S->stored & 64 ? 8 : (size + 511) / 512;
}
/* asked about the link itself */
static void as_link(struct stat *st, const char *p) {
    if (!link_() || alias(p))
        return;
    st->st_mode = S_IFLNK | 0777;
    st->st_size = 7;
    st->st_nlink = 1;
}
static int do_fstat(int fd, struct stat *st) {
    if (kind(fd) != 1)
        return ret(raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
    uint64_t size;
    long r = shown_size(&size, fd, 0);
    if (!r)
        fill(st, size);
    return ret(r);
}
static int do_stat(int d, const char *p, struct stat *st, int fl) {
    if (!is_sim(p)) {
        if (p && !*p && (fl & AT_EMPTY_PATH) && kind(d) == 1)
            return do_fstat(d, st);
        return ret(raw(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0));
    }
    if (!mine(p))
        return ret(-ENOENT);
    uint64_t size;
    long r = shown_size(&size, -1, p);
    if (!r)
        fill(st, size);
    if (!r && (fl & AT_SYMLINK_NOFOLLOW))
        as_link(st, p);
    return ret(r);
}
int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
    int ours = (p && !*p && (fl & AT_EMPTY_PATH) && kind(d) == 1) || (!p && kind(d) == 1) || is_sim(p);
    if (!ours)
        return ret(raw(SYS_statx, d, (long)p, fl, mask, (long)sx, 0));
    if (is_sim(p) && !mine(p))
        return ret(-ENOENT);
    if (!sx)
        return ret(-EFAULT); /* a probe for the call's existence */
    uint64_t size;
    long r = shown_size(&size, is_sim(p) ? -1 : d, p);
    if (!r) {
        memset(sx, 0, sizeof *sx);
        struct stat st;
        fill(&st, size);
        if (is_sim(p) && (fl & AT_SYMLINK_NOFOLLOW))
            as_link(&st, p);
        sx->stx_mask = S->stored & 16 ? STATX_BASIC_STATS : STATX_BASIC_STATS | STATX_BTIME;
        sx->stx_ino = st.st_ino;
        sx->stx_dev_major = st.st_dev >> 8;
        sx->stx_dev_minor = st.st_dev & 255;
        sx->stx_blocks = st.st_blocks;
        sx->stx_mode = st.st_mode;
        sx->stx_nlink = st.st_nlink;
        sx->stx_uid = sx->stx_gid = S->uid;
        sx->stx_mtime.tv_sec = sx->stx_ctime.tv_sec = sx->stx_atime.tv_sec = sx->stx_btime.tv_sec = S->mtime;
        sx->stx_size = st.st_size;
        sx->stx_blksize = st.st_blksize;
    }
    return ret(r);
}
int access(const char *p, int m) { return is_sim(p) ? ret(!mine(p) || gone(p) ? -ENOENT : S->open_errno ? -(long)S->open_errno : 0) : (int)ret(raw(SYS_access, (long)p, m, 0, 0, 0, 0)); }
/* where a name leads: the whole path, or the next step */
static long leads(const char *p, char *b, size_t n, int whole) {
    enter();
    long r = 0;
    if (!mine(p) || gone(p))
        r = -ENOENT;
    else if (!whole && (!link_() || alias(p)))
        r = -EINVAL;
    else {
        char t[8] = "/sim/@0";
        t[6] = alias(p) ? alias(p) : !link_() ? '0' : version() ? '2' : '1';
        size_t k = n < 8 ? n : 8;
        memcpy(b, t, k);
        r = k < 7 ? k : 7;
    }
    file_calls++;
    note(0, whole, r);
    leave();
    return ret(r);
}
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { return is_sim(p) ? leads(p, b, n, 0) : ret(raw(SYS_readlinkat, d, (long)p, (long)b, n, 0, 0)); }
ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
char *realpath(const char *p, char *b) {
    if (!is_sim(p)) { /* elsewhere nothing is linked */
        struct stat st;
        if (!p || !*p || raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, 0, 0, 0) < 0) {
            errno = ENOENT;
            return 0;
        }
        if (!b)
            b = malloc(4096);
        return b ? strcpy(b, p) : 0;
    }
    char t[8] = {0};
    if (leads(p, t, 8, 1) < 0)
        return 0;
    if (!b)
        b = malloc(4096);
    return b ? strcpy(b, t) : 0;
}
/* the working directory may have been removed; files with a whole path are there all the same */
char *getcwd(char *b, size_t n) {
    char t[4096];
    if (S && S->started && (S->stored & 512) && S->name[0] == '/') {
        errno = ENOENT;
        return 0;
    }
    long k = raw(SYS_getcwd, (long)t, sizeof t, 0, 0, 0, 0);
    if (k < 0)
        return (char *)ret(k);
    if (!b)
        b = malloc(n ? n : (size_t)k), n = n ? n : (size_t)k;
    if (!b)
        return 0;
    if ((size_t)k > n) {
        errno = ERANGE;
        return 0;
    }
    return memcpy(b, t, k);
}
static long do_seek(int fd, long off, int wh) {
    if (kind(fd) != 1)
        return ret(raw(SYS_lseek, fd, off, wh, 0, 0, 0));
    enter();
    S->seeks++;
    long r;
    if (S->seek_errno) {
        r = -(long)S->seek_errno;
        faulted(&S->f_seek);
    } else {
        uint64_t *o = &open_[ofd_[fd]].off;
        if (wh == SEEK_DATA || wh == SEEK_HOLE) { /* no holes but the one at the end */
            long len = (long)len_of(open_[ofd_[fd]].second);
            off = off < 0 || off >= len ? -1 : wh == SEEK_DATA ? off : len;
            wh = SEEK_SET;
        }
        long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)*o : wh == SEEK_END ? (long)len_of(open_[ofd_[fd]].second) : -1;
        r = base < 0 || base + off < 0 ? -EINVAL : base + off;
        if (r >= 0)
            *o = r;
    }
    file_calls++;
    note(3, wh, r);
    leave();
    return ret(r);
}
off_t lseek(int fd, off_t off, int wh) { return do_seek(fd, off, wh); }
off64_t lseek64(int fd, off64_t off, int wh) { return do_seek(fd, off, wh); }

/* ---- reading ---- */
static long sim_read(int fd, const struct iovec *v, int n, uint64_t *pos) {
    enter();
    uint32_t second = open_[ofd_[fd]].second;
    uint64_t len = len_of(second);
    const uint8_t *bytes = second ? S->file2 : S->file;
    uint32_t i = S->reads++;
    struct op o = i < S->n_read ? S->read_ops[i] : S->read_rest;
    size_t want = 0;
    for (int k = 0; k < n; k++)
        want += v[k].iov_len;
    long r;
    if (S->is_dir) {
        faulted(&S->f_read);
        r = -EISDIR;
    } else if (o.kind == EINTR_) {
        faulted(&S->f_read_eintr);
        r = -EINTR;
    } else if (o.kind == FAIL) {
        if (*pos >= len)
            S->fail_at_eof++;
        faulted(&S->f_read);
        r = -(long)o.arg;
    } else {
        size_t left = *pos < len ? len - *pos : 0;
        size_t m = want < left ? want : left;
        if (o.kind == SHORT && o.arg > 0 && m > o.arg) {
            m = o.arg;
            faulted(&S->f_read_short);
        }
        if (want > 0 && left == 0)
            S->eof_seen++;
        size_t done = 0;
        for (int k = 0; k < n && done < m; k++) {
            size_t c = v[k].iov_len < m - done ? v[k].iov_len : m - done;
            memcpy(v[k].iov_base, bytes + *pos + done, c);
            done += c;
        }
        *pos += done;
        S->delivered += done;
        r = done;
    }
    file_calls++;
    version();
    note(4, (uint32_t)want, r);
    leave();
    return ret(r);
}
ssize_t read(int fd, void *b, size_t n) {
    if (kind(fd) != 1) {
        if (fd == 0 && S && S->started)
            side("read of standard input", 0);
        return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
    }
    struct iovec v = {b, n};
    return sim_read(fd, &v, 1, &open_[ofd_[fd]].off);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (kind(fd) != 1)
        return ret(raw(SYS_readv, fd, (long)v, n, 0, 0, 0));
    return sim_read(fd, v, n, &open_[ofd_[fd]].off);
}
static long do_pread(int fd, void *b, size_t n, off_t off) {
    if (kind(fd) != 1)
        return ret(raw(SYS_pread64, fd, (long)b, n, off, 0, 0));
    struct iovec v = {b, n};
    uint64_t pos = off;
    return sim_read(fd, &v, 1, &pos);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return do_pread(fd, b, n, off); }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return do_pread(fd, b, n, off); }
ssize_t preadv(int fd, const struct iovec *v, int n, off_t off) {
    if (kind(fd) != 1)
        return ret(raw(SYS_preadv, fd, (long)v, n, off, 0, 0));
    uint64_t pos = off;
    return sim_read(fd, v, n, &pos);
}
ssize_t preadv64(int fd, const struct iovec *v, int n, off64_t off) { return preadv(fd, v, n, off); }
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (!(fl & MAP_ANONYMOUS) && kind(fd) == 1)
        return (void *)ret(-ENODEV);
    return (void *)ret(raw(SYS_mmap, (long)a, n, prot, fl, fd, off));
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t off) { return mmap(a, n, prot, fl, fd, off); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    if (kind(i) || kind(o))
        return ret(-EXDEV);
    return ret(raw(SYS_copy_file_range, i, (long)io, o, (long)oo, n, f));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return kind(i) || kind(o) ? ret(-EINVAL) : ret(raw(SYS_sendfile, o, i, (long)off, n, 0, 0)); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t splice(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    if (kind(i) || kind(o))
        return ret(-EINVAL);
    return ret(raw(SYS_splice, i, (long)io, o, (long)oo, n, f));
}

/* ---- writing ---- */
static long sim_write(int which, const struct iovec *v, int n) {
    enter();
    int out = which == 2;
    uint32_t i = out ? S->outs++ : S->errs++;
    struct op o = out ? (i < S->n_out ? S->out_ops[i] : S->out_rest) : (i < S->n_err ? S->err_ops[i] : S->err_rest);
    size_t want = 0;
    for (int k = 0; k < n; k++)
        want += v[k].iov_len;
    long r;
    if (o.kind == EINTR_) {
        faulted(out ? &S->f_out_eintr : &S->f_err_eintr);
        r = -EINTR;
    } else if (o.kind == FAIL) {
        faulted(out ? &S->f_out : &S->f_err);
        r = -(long)o.arg;
    } else if (o.kind == ZERO && want > 0) {
        faulted(out ? &S->f_out_zero : &S->f_err);
        r = 0;
    } else {
        size_t m = want;
        if (o.kind == SHORT && o.arg > 0 && m > o.arg) {
            m = o.arg;
            faulted(out ? &S->f_out_short : &S->f_err_short);
        }
        size_t done = 0;
        for (int k = 0; k < n && done < m; k++) {
            size_t c = v[k].iov_len < m - done ? v[k].iov_len : m - done;
            uint64_t at = out ? S->out_len : S->err_len;
            uint64_t cap = out ? OUTCAP : ERRCAP;
            if (at + c > cap) {
                S->overflow = 1;
                raw(SYS_exit_group, 96, 0, 0, 0, 0, 0);
            }
            memcpy((out ? S->out : S->err) + at, v[k].iov_base, c);
            if (out)
                S->out_len += c;
            else
                S->err_len += c;
            done += c;
        }
        r = done;
    }
    note(out ? 5 : 6, (uint32_t)want, r);
    leave();
    return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) {
    attach();
    if (kind(fd) < 2) {
        side("write to another descriptor", 0);
        return ret(-EBADF);
    }
    struct iovec v = {(void *)b, n};
    return sim_write(kind(fd), &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    attach();
    if (kind(fd) < 2) {
        side("write to another descriptor", 0);
        return ret(-EBADF);
    }
    return sim_write(kind(fd), v, n);
}

/* ---- what a decoder has no business with: recorded, answered as on a read-only machine ---- */
#define TRACE_PATH(name, ...) int name(__VA_ARGS__) { side(#name, p); return ret(-EROFS); }
TRACE_PATH(creat, const char *p, mode_t m)
TRACE_PATH(creat64, const char *p, mode_t m)
TRACE_PATH(mkdir, const char *p, mode_t m)
TRACE_PATH(rmdir, const char *p)
TRACE_PATH(unlink, const char *p)
TRACE_PATH(remove, const char *p)
TRACE_PATH(rename, const char *p, const char *q)
TRACE_PATH(link, const char *p, const char *q)
TRACE_PATH(symlink, const char *p, const char *q)
TRACE_PATH(truncate, const char *p, off_t n)
TRACE_PATH(truncate64, const char *p, off64_t n)
TRACE_PATH(chmod, const char *p, mode_t m)
TRACE_PATH(chown, const char *p, uid_t u, gid_t g)
TRACE_PATH(lchown, const char *p, uid_t u, gid_t g)
TRACE_PATH(mknod, const char *p, mode_t m, dev_t d)
TRACE_PATH(mkfifo, const char *p, mode_t m)
TRACE_PATH(chdir, const char *p)
TRACE_PATH(execve, const char *p, char *const *a, char *const *e)
TRACE_PATH(execv, const char *p, char *const *a)
TRACE_PATH(execvp, const char *p, char *const *a)
TRACE_PATH(execvpe, const char *p, char *const *a, char *const *e)
TRACE_PATH(posix_spawn, pid_t *i, const char *p, const void *f, const void *t, char *const *a, char *const *e)
TRACE_PATH(posix_spawnp, pid_t *i, const char *p, const void *f, const void *t, char *const *a, char *const *e)
TRACE_PATH(unlinkat, int d, const char *p, int f)
TRACE_PATH(mkdirat, int d, const char *p, mode_t m)
TRACE_PATH(renameat, int d, const char *p, int e, const char *q)
TRACE_PATH(renameat2, int d, const char *p, int e, const char *q, unsigned f)
TRACE_PATH(linkat, int d, const char *p, int e, const char *q, int f)
TRACE_PATH(symlinkat, const char *p, int d, const char *q)
TRACE_PATH(fchmodat, int d, const char *p, mode_t m, int f)
TRACE_PATH(fchownat, int d, const char *p, uid_t u, gid_t g, int f)
TRACE_PATH(utimensat, int d, const char *p, const struct timespec *t, int f)
TRACE_PATH(setxattr, const char *p, const char *n, const void *v, size_t z, int f)
#define TRACE_FD(name, ...) int name(__VA_ARGS__) { side(#name, 0); return ret(-EROFS); }
TRACE_FD(ftruncate, int fd, off_t n)
TRACE_FD(ftruncate64, int fd, off64_t n)
TRACE_FD(fchmod, int fd, mode_t m)
TRACE_FD(fchown, int fd, uid_t u, gid_t g)
TRACE_FD(futimens, int fd, const struct timespec *t)
TRACE_FD(fallocate, int fd, int m, off_t o, off_t n)
TRACE_FD(posix_fallocate, int fd, off_t o, off_t n)
TRACE_FD(fork, void)
TRACE_FD(vfork, void)
TRACE_FD(system, const char *c)
TRACE_FD(socket, int a, int b, int c)
TRACE_FD(socketpair, int a, int b, int c, int *v)
TRACE_FD(kill, pid_t i, int g)
TRACE_PATH(mkfifoat, int d, const char *p, mode_t m)
TRACE_PATH(mknodat, int d, const char *p, mode_t m, dev_t v)
TRACE_PATH(chroot, const char *p)
TRACE_PATH(lsetxattr, const char *p, const char *n, const void *v, size_t z, int f)
TRACE_PATH(removexattr, const char *p, const char *n)
TRACE_PATH(shm_open, const char *p, int f, mode_t m)
TRACE_PATH(memfd_create, const char *p, unsigned f)
TRACE_PATH(inotify_add_watch, int fd, const char *p, uint32_t m)
TRACE_FD(sethostname, const char *n, size_t z)
TRACE_FD(connect, int fd, const void *a, unsigned n)
TRACE_FD(bind, int fd, const void *a, unsigned n)
TRACE_FD(getaddrinfo, const char *a, const char *b, const void *h, void **r)
TRACE_FD(flock, int fd, int op)
TRACE_FD(setuid, uid_t u)
TRACE_FD(setgid, gid_t u)
TRACE_FD(setpgid, pid_t a, pid_t b)
TRACE_FD(setpriority, int a, unsigned b, int c)
TRACE_FD(nice, int n)
TRACE_FD(daemon, int a, int b)
TRACE_FD(inotify_init1, int f)
TRACE_FD(sigqueue, pid_t i, int g, long v)
void *fopen(const char *p, const char *m) { side("fopen", p); errno = EROFS; return NULL; }
void *fopen64(const char *p, const char *m) { side("fopen", p); errno = EROFS; return NULL; }
void *opendir(const char *p) { side("opendir", p); errno = ENOENT; return NULL; }
void *fdopendir(int fd) { side("opendir", 0); errno = ENOTDIR; return NULL; }
void *popen(const char *c, const char *m) { side("popen", c); errno = EROFS; return NULL; }
void *tmpfile(void) { side("tmpfile", 0); errno = EROFS; return NULL; }
int mkstemp(char *p) { side("mkstemp", p); return ret(-EROFS); }
int mkstemp64(char *p) { side("mkstemp", p); return ret(-EROFS); }
char *mkdtemp(char *p) { side("mkdtemp", p); errno = EROFS; return NULL; }
int mkostemp64(char *p, int f) { side("mkstemp", p); return ret(-EROFS); }
void openlog(const char *i, int o, int f) { side("openlog", i); }
void syslog(int l, const char *f, ...) { side("syslog", f); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { side("pwrite", 0); return ret(-EROFS); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { side("pwrite", 0); return ret(-EROFS); }

/* ---- terminals ---- */
int isatty(int fd) {
    if (S && fd >= 0 && fd < 3 && S->tty >> fd & 1)
        return 1;
    errno = ENOTTY;
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *p = va_arg(ap, void *);
    va_end(ap);
    if (fd < 0 || fd > 2)
        return ret(raw(SYS_ioctl, fd, req, (long)p, 0, 0, 0));
    if (!S || !(S->tty >> fd & 1))
        return ret(-ENOTTY);
    if (req == TIOCGWINSZ) {
        struct winsize *w = p;
        memset(w, 0, sizeof *w);
        w->ws_row = 24;
        w->ws_col = S->tty & 8 ? 20 : 80;
        return 0;
    }
    if (req == TCGETS) {
        memset(p, 0, 36);
        return 0;
    }
    return ret(-EINVAL);
}

/* ---- the environment, and who runs the tool ---- */
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=')
            return *e + n + 1;
    /* the runtime's own settings (backtraces, stack sizes) are not the tool's */
    if (!S || !S->started || !S->env_val[0] || (!strncmp(name, "RUST_", 5) && strcmp(name, "RUST_LOG")) || !strncmp(name, "LD_", 3) || !strncmp(name, "MALLOC_", 7) || !strncmp(name, "GLIBC_", 6))
        return NULL;
    S->n_asked++;
    return S->env_val + 1;
}
char *secure_getenv(const char *name) { return getenv(name); }
uid_t getuid(void) { return S ? S->uid : (uid_t)raw(SYS_getuid, 0, 0, 0, 0, 0, 0); }
uid_t geteuid(void) { return S ? S->uid : (uid_t)raw(SYS_geteuid, 0, 0, 0, 0, 0, 0); }
gid_t getgid(void) { return S ? S->uid : (gid_t)raw(SYS_getgid, 0, 0, 0, 0, 0, 0); }
gid_t getegid(void) { return S ? S->uid : (gid_t)raw(SYS_getegid, 0, 0, 0, 0, 0, 0); }
pid_t getppid(void) { return S ? (pid_t)(S->uid + 1 + S->machine) : (pid_t)raw(SYS_getppid, 0, 0, 0, 0, 0, 0); }

extern long __sysconf(int);
long sysconf(int n) { return S && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) ? S->cpus : __sysconf(n); }
int get_nprocs(void) { return S ? (int)S->cpus : 1; }
int get_nprocs_conf(void) { return get_nprocs(); }
int sched_getaffinity(pid_t p, size_t n, void *m) {
    memset(m, 0, n);
    for (unsigned i = 0; i < (S ? S->cpus : 1) && i < n * 8; i++)
        ((unsigned char *)m)[i / 8] |= 1 << i % 8;
    return 0;
}
int gethostname(char *b, size_t n) {
    if (n < 6)
        return ret(-ENAMETOOLONG);
    memcpy(b, "hosta", 6);
    b[4] += S ? S->machine % 26 : 0;
    return 0;
}

/* ---- clock and randomness ---- */
/* time passes with every call, by what the plan says, and with every sleep */
static uint64_t since_start(void) { return (S->steps + S->pace_calls) * S->pace + S->slept; }
static void slept(uint64_t ns) {
    enter();
    S->slept += ns;
    note(7, (uint32_t)(ns / 1000000), 0);
    leave();
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    attach();
    if (S->started)
        S->pace_calls++;
    uint64_t run = since_start();
    int wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
    ts->tv_sec = (wall ? S->clock_sec : 5000) + (int64_t)(run / 1000000000);
    ts->tv_nsec = run % 1000000000;
    if (wall && S->jump_at && S->steps + S->pace_calls >= S->jump_at)
        ts->tv_sec += S->jump;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
/* who sleeps, sleeps in simulated time */
int nanosleep(const struct timespec *d, struct timespec *rest) {
    (void)rest;
    slept((uint64_t)d->tv_sec * 1000000000 + d->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *d, struct timespec *rest) {
    (void)rest;
    uint64_t t = (uint64_t)d->tv_sec * 1000000000 + d->tv_nsec;
    if (fl & TIMER_ABSTIME) {
        struct timespec now;
        clock_gettime(c, &now);
        uint64_t n = (uint64_t)now.tv_sec * 1000000000 + now.tv_nsec;
        t = t > n ? t - n : 0;
    }
    slept(t);
    return 0;
}
int usleep(useconds_t u) {
    slept((uint64_t)u * 1000);
    return 0;
}
unsigned sleep(unsigned n) {
    slept((uint64_t)n * 1000000000);
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    (void)f;
    static uint64_t x;
    if (!x)
        x = 0x5eed + (S ? S->machine : 0);
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005u + 1442695040888963407u;
        ((unsigned char *)b)[i] = x >> 56;
    }
    return n;
}

/* ---- memory ---- */
/* thread and process numbers end up in messages */
pid_t gettid(void) { return S ? 4242 : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid(void) { return S ? 4242 + (pid_t)S->machine : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
static int refuse(size_t n) {
    attach();
    if (!S)
        return 0;
    uint64_t i = S->allocs++;
    if (n > S->max_req)
        S->max_req = n;
    int no = 0;
    switch (S->alloc_mode) {
    case 1: no = i == S->alloc_at; break;
    case 2: no = i >= S->alloc_at; break;
    case 3: no = S->live + n > S->alloc_quota; break;
    case 4: no = n > S->alloc_quota; break;
    case 5: no = i >= S->alloc_at && (i - S->alloc_at) % 2 == 0; break;
    }
    if (S->live + n > MACHINE)
        no = 1;
    if (no) {
        faulted(&S->f_alloc);
        errno = ENOMEM;
    }
    return no;
}
extern size_t malloc_usable_size(void *);
static void *got(void *p) {
    if (p && S) {
        S->live += malloc_usable_size(p);
        if (S->live > S->peak)
            S->peak = S->live;
    }
    return p;
}
void *malloc(size_t n) { return refuse(n) ? NULL : got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return refuse(n) ? NULL : got(__libc_calloc(a, b));
}
void *realloc(void *p, size_t n) {
    if (refuse(n))
        return NULL;
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if ((q || !n) && S)
        S->live -= old;
    return got(q);
}
void free(void *p) {
    if (p && S)
        S->live -= malloc_usable_size(p);
    __libc_free(p);
}
void *memalign(size_t a, size_t n) { return refuse(n) ? NULL : got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **out, size_t a, size_t n) {
    if (refuse(n))
        return ENOMEM;
    void *p = got(__libc_memalign(a, n));
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
