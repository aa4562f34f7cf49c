// Stands between a program and the operating system: every open, read, write,
// file size query, clock reading and random number follows a plan file, so
// that a run of the real program is repeatable.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum {
    C_READS, C_DELIVERED, C_EOFS, C_READ_EINTR, C_READ_SHORT, C_READ_ERR, C_EARLY_EOF,
    C_WRITES, C_ACCEPTED, C_WRITE_EINTR, C_WRITE_SHORT, C_WRITE_ERR, C_WRITE_ZERO,
    C_OPENS, C_OPEN_ERR, C_OPEN_EINTR, C_STAT_LIE,
    C_RT, C_RT_BACK, C_RT_FWD, C_RT_STILL, C_MONO, C_MONO_STILL, C_MONO_NS, C_RANDOM, C_ALLOC_FAIL,
    C_READ_AFTER_EOF, C_RT_NS, C_INPUT_OPENED, C_LAG_NS, C_LAGS, C_TIMED_NS, C_COUNT
};

static uint64_t no_counters[C_COUNT];
static uint64_t *count = no_counters;
static char input_name[256];

struct action { char kind; long arg; };
#define MAX_ACTIONS 8192
static struct action reads[MAX_ACTIONS], writes[MAX_ACTIONS];
static int n_reads, n_writes, at_read, at_write;
static long read_cap, write_cap;
static int read_stuck, write_stuck;
static int open_err, open_eintr, stat_mode;
static int64_t rt_steps[MAX_ACTIONS], mono_steps[MAX_ACTIONS];
static int n_rt, n_mono, at_rt, at_mono;
static int64_t lags[MAX_ACTIONS];
static int n_lags, at_lag;
static int64_t rt_now = 1600000000LL * 1000000000LL, mono_now = 5000LL * 1000000000LL;
static uint64_t rand_state = 1;
static long alloc_fail_at = -1, alloc_seen;
static size_t alloc_min;
static char is_input[1024];
static int ready, eof_given;

static long sys_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

__attribute__((constructor)) static void load_plan(void) {
    static char text[1 << 19];
    const char *plan = getenv("DSIM_PLAN"), *counters = getenv("DSIM_COUNTERS");
    if (!plan || !counters) return;
    int fd = syscall(SYS_openat, AT_FDCWD, plan, O_RDONLY | O_CLOEXEC);
    if (fd < 0) _exit(98);
    size_t len = 0;
    for (;;) {
        long n = sys_read(fd, text + len, sizeof text - 1 - len);
        if (n <= 0) break;
        len += n;
    }
    syscall(SYS_close, fd);
    text[len] = 0;
    fd = syscall(SYS_openat, AT_FDCWD, counters, O_RDWR | O_CLOEXEC);
    if (fd < 0) _exit(98);
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) _exit(98);
    count = m;
    syscall(SYS_close, fd);
    char *save = 0;
    for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(0, "\n", &save)) {
        char *s2 = 0, *word = strtok_r(line, " ", &s2);
        if (!word) continue;
        char *a = strtok_r(0, " ", &s2), *b = strtok_r(0, " ", &s2);
        long long va = a ? atoll(a) : 0, vb = b ? atoll(b) : 0;
        if (!strcmp(word, "input")) strncpy(input_name, a ? a : "", sizeof input_name - 1);
        else if (!strcmp(word, "r") && n_reads < MAX_ACTIONS) reads[n_reads++] = (struct action){a[0], vb};
        else if (!strcmp(word, "w") && n_writes < MAX_ACTIONS) writes[n_writes++] = (struct action){a[0], vb};
        else if (!strcmp(word, "rcap")) read_cap = va;
        else if (!strcmp(word, "wcap")) write_cap = va;
        else if (!strcmp(word, "openerr")) open_err = va;
        else if (!strcmp(word, "openeintr")) open_eintr = va;
        else if (!strcmp(word, "stat")) stat_mode = va;
        else if (!strcmp(word, "rt") && n_rt < MAX_ACTIONS) rt_steps[n_rt++] = va;
        else if (!strcmp(word, "mono") && n_mono < MAX_ACTIONS) mono_steps[n_mono++] = va;
        else if (!strcmp(word, "lag") && n_lags < MAX_ACTIONS) lags[n_lags++] = va;
        else if (!strcmp(word, "rand")) rand_state = va;
        else if (!strcmp(word, "alloc")) { alloc_fail_at = va; alloc_min = vb; }
    }
    ready = 1;
}

static int names_input(const char *path) {
    if (!ready || !input_name[0] || !path) return 0;
    const char *base = strrchr(path, '/');
    return !strcmp(base ? base + 1 : path, input_name);
}

// ------------------------------------------------------------------- open

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    if (names_input(path)) {
        count[C_OPENS]++;
        if (open_eintr > 0) {
            open_eintr--;
            count[C_OPEN_EINTR]++;
            errno = EINTR;
            return -1;
        }
        if (open_err) {
            count[C_OPEN_ERR]++;
            errno = open_err;
            return -1;
        }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 1024) {
        is_input[fd] = names_input(path);
        if (is_input[fd]) count[C_INPUT_OPENED]++;
    }
    return fd;
}

#define OPEN_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { OPEN_MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { OPEN_MODE return do_open(dir, path, flags, mode); }

int close(int fd) {
    if (fd >= 0 && fd < 1024) is_input[fd] = 0;
    return syscall(SYS_close, fd);
}

// ------------------------------------------------------------------- reads

// decides about one read; -2: go on with at most *limit bytes
static ssize_t before_read(size_t want, size_t *limit) {
    count[C_READS]++;
    *limit = want;
    if (at_lag < n_lags) { // a slow input: time passes during the call
        int64_t lag = lags[at_lag++];
        mono_now += lag;
        if (lag > 0) count[C_LAGS]++;
        if (count[C_MONO] > 0) count[C_LAG_NS] += lag;
    }
    if (want == 0) return -2;
    if (read_stuck) { count[C_READ_ERR]++; errno = read_stuck; return -1; }
    if (at_read < n_reads) {
        struct action a = reads[at_read++];
        switch (a.kind) {
            case 'i': count[C_READ_EINTR]++; errno = EINTR; return -1;
            case 'e': count[C_READ_ERR]++; read_stuck = a.arg; errno = a.arg; return -1;
            case 'o': count[C_READ_ERR]++; errno = a.arg; return -1;
            case 'z': count[C_EARLY_EOF]++; if (!eof_given) { eof_given = 1; } count[C_EOFS]++; return 0;
            case 's': if ((size_t)a.arg < want) *limit = a.arg; return -2;
        }
        return -2;
    }
    if (read_cap > 0 && (size_t)read_cap < want) *limit = read_cap;
    return -2;
}
static void after_read(size_t want, size_t limit, ssize_t n) {
    if (n > 0) {
        if (eof_given) count[C_READ_AFTER_EOF] += n; else count[C_DELIVERED] += n;
        if (limit < want && (size_t)n == limit) count[C_READ_SHORT]++;
    } else if (n == 0 && want > 0) {
        eof_given = 1;
        count[C_EOFS]++;
    }
}
static int input_fd(int fd) { return ready && fd >= 0 && fd < 1024 && is_input[fd]; }

ssize_t read(int fd, void *buf, size_t n) {
    if (!input_fd(fd)) return syscall(SYS_read, fd, buf, n);
    size_t limit;
    ssize_t r = before_read(n, &limit);
    if (r != -2) return r;
    r = syscall(SYS_read, fd, buf, limit);
    after_read(n, limit, r);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    if (!input_fd(fd)) return syscall(SYS_readv, fd, v, k);
    for (int i = 0; i < k; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t at) {
    if (!input_fd(fd)) return syscall(SYS_pread64, fd, buf, n, at);
    size_t limit;
    ssize_t r = before_read(n, &limit);
    if (r != -2) return r;
    r = syscall(SYS_pread64, fd, buf, limit, at);
    after_read(n, limit, r);
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return pread64(fd, buf, n, at); }

// ------------------------------------------------------------------ writes

ssize_t write(int fd, const void *buf, size_t n) {
    if (!ready || (fd != 1 && fd != 2) || n == 0) return syscall(SYS_write, fd, buf, n);
    if (fd == 2) return syscall(SYS_write, fd, buf, n);
    count[C_WRITES]++;
    size_t limit = n;
    if (write_stuck) { count[C_WRITE_ERR]++; errno = write_stuck; return -1; }
    if (at_write < n_writes) {
        struct action a = writes[at_write++];
        switch (a.kind) {
            case 'i': count[C_WRITE_EINTR]++; errno = EINTR; return -1;
            case 'e': count[C_WRITE_ERR]++; write_stuck = a.arg; errno = a.arg; return -1;
            case 'o': count[C_WRITE_ERR]++; errno = a.arg; return -1;
            case 'z': count[C_WRITE_ZERO]++; return 0;
            case 's': if ((size_t)a.arg < n) limit = a.arg; break;
        }
    } else if (write_cap > 0 && (size_t)write_cap < n && count[C_WRITES] < 8000) limit = write_cap; // bounded: reports can be large
    ssize_t r = syscall(SYS_write, fd, buf, limit);
    if (r > 0) {
        count[C_ACCEPTED] += r;
        if ((size_t)r < n) count[C_WRITE_SHORT]++;
    }
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (!ready || fd != 1) return syscall(SYS_writev, fd, v, k);
    for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

// -------------------------------------------------------------- file sizes

static uint64_t lie(uint64_t size) {
    if (!stat_mode) return size;
    count[C_STAT_LIE]++;
    return stat_mode == 1 ? 0 : stat_mode == 2 ? size / 2 : stat_mode == 3 ? size + 1 : size + 70000;
}
int statx(int dir, const char *path, int flags, unsigned mask, struct statx *st) {
    int r = syscall(SYS_statx, dir, path, flags, mask, st);
    if (r == 0 && ((path && path[0] && names_input(path)) || ((!path || !path[0]) && input_fd(dir))))
        st->stx_size = lie(st->stx_size);
    return r;
}
int fstat(int fd, struct stat *st) {
    int r = syscall(SYS_fstat, fd, st);
    if (r == 0 && input_fd(fd)) st->st_size = lie(st->st_size);
    return r;
}
int fstat64(int fd, struct stat64 *st) {
    int r = syscall(SYS_fstat, fd, st);
    if (r == 0 && input_fd(fd)) st->st_size = lie(st->st_size);
    return r;
}

// ------------------------------------------------------------------ clocks

static int64_t read_rt(void) {
    int64_t step = at_rt < n_rt ? rt_steps[at_rt++] : 1000000;
    count[C_RT]++;
    if (step < 0) count[C_RT_BACK]++;
    else if (step == 0) count[C_RT_STILL]++;
    else if (step > 1000000000LL) count[C_RT_FWD]++;
    rt_now += step;
    if (rt_now < 0) rt_now = 0;
    count[C_RT_NS] += step > 0 ? step : 0;
    return rt_now;
}
static int64_t read_mono(void) {
    int64_t step = at_mono < n_mono ? mono_steps[at_mono++] : 1000000;
    static int64_t first;
    if (count[C_MONO] == 0) first = mono_now + step;
    count[C_MONO]++;
    if (step == 0) count[C_MONO_STILL]++;
    count[C_TIMED_NS] = mono_now + step - first;
    mono_now += step;
    count[C_MONO_NS] += step;
    return mono_now;
}
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!ready) return syscall(SYS_clock_gettime, id, t);
    int64_t v;
    switch (id) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: v = read_rt(); break;
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
            v = read_mono(); break;
        default: return syscall(SYS_clock_gettime, id, t);
    }
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    (void)z;
    if (t) {
        clock_gettime(CLOCK_REALTIME, &s);
        t->tv_sec = s.tv_sec;
        t->tv_usec = s.tv_nsec / 1000;
    }
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}

// -------------------------------------------------------------- randomness

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!ready) return syscall(SYS_getrandom, buf, n, flags);
    count[C_RANDOM]++;
    for (size_t i = 0; i < n; i++) {
        rand_state = rand_state * 6364136223846793005ULL + 1442695040888963407ULL;
        ((uint8_t *)buf)[i] = rand_state >> 56;
    }
    return n;
}

// ------------------------------------------------------------- allocations

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static int alloc_fails(size_t n) {
    if (alloc_fail_at < 0 || n < alloc_min) return 0;
    if (alloc_seen++ != alloc_fail_at) return 0;
    count[C_ALLOC_FAIL]++;
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return alloc_fails(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return alloc_fails(a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return alloc_fails(n) ? 0 : __libc_realloc(p, n); }
