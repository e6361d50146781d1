/*
 * The operating system as the converter sees it, under control of the
 * simulator. Loaded with LD_PRELOAD. Reads a plan from the file "plan" in the
 * working directory and logs every simulated call in the mapped file "log".
 *
 * Targets: 0 input, 1 output, 2 file with tags, 3 label sets.
 * Plan lines:
 *   seed N            bytes returned by getrandom
 *   junk N            heap blocks allocated before main
 *   std T             descriptor 0 / 1 is target 0 / 1
 *   chunk T n n ...   sizes of successive transfers, cyclic; 0: EINTR
 *   fault T OFF E K   at byte OFF fail with errno E (0: transfer nothing),
 *                     K times (0: for ever)
 *   crash T OFF       the process dies when OFF bytes have been transferred
 *   open T E K        opening fails with errno E, K times (0: for ever)
 *   alloc N           the N-th allocation fails
 *   mem 1             the largest amount of live heap is logged at exit
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define TARGETS 4
#define MAX_CHUNKS 256
#define MAX_FAULTS 8
#define MAX_FDS 256
#define LOG_ENTRIES 65536

struct fault { uint64_t off; int err; int times; int spent; };
struct target {
    int n_chunks, next;
    uint32_t chunk[MAX_CHUNKS];
    int n_faults;
    struct fault fault[MAX_FAULTS];
    int crash;
    uint64_t crash_at;
    int open_err, open_times, open_spent;
    uint64_t pos;
    int eintr_row;
};

/* kinds of log entries */
enum { E_IO = 1, E_SHORT, E_EINTR, E_ERROR, E_ZERO, E_CRASH, E_OPEN, E_OPENFAIL, E_ALLOC, E_MEM };

struct entry { uint8_t kind, target; uint16_t err; uint32_t n; uint64_t off; };
struct log { uint64_t used; struct entry e[LOG_ENTRIES]; };

static struct target T[TARGETS];
static int8_t owner[MAX_FDS];
static struct log *L;
static int active;
static uint64_t seed = 1;
static uint64_t alloc_at, allocs;
static int mem;
static int64_t live, peak;

static void note(int kind, int target, int err, uint32_t n, uint64_t off)
{
    /* room for the rare kinds is kept when the log is full of transfers */
    int common = kind == E_IO || kind == E_SHORT || kind == E_EINTR;
    if (!L || L->used >= (common ? LOG_ENTRIES - 512 : LOG_ENTRIES))
        return;
    struct entry *e = &L->e[L->used++];
    e->kind = kind;
    e->target = target;
    e->err = err;
    e->n = n;
    e->off = off;
}

static void die(void)
{
    syscall(SYS_exit_group, 77);
}

static uint64_t rnd(void)
{
    uint64_t z = (seed += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static char plan_text[1 << 16];

__attribute__((constructor)) static void setup(void)
{
    for (int i = 0; i < MAX_FDS; i++)
        owner[i] = -1;
    int fd = syscall(SYS_openat, AT_FDCWD, "plan", O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0)
        return;
    ssize_t n = syscall(SYS_read, fd, plan_text, sizeof plan_text - 1);
    syscall(SYS_close, fd);
    if (n < 0)
        return;
    plan_text[n] = 0;
    fd = syscall(SYS_openat, AT_FDCWD, "log", O_RDWR | O_CLOEXEC, 0);
    if (fd >= 0) {
        void *p = mmap(NULL, sizeof(struct log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED)
            L = p;
        syscall(SYS_close, fd);
    }
    long junk = 0;
    char *s = plan_text;
    while (*s) {
        char *end = strchr(s, '\n');
        if (end)
            *end = 0;
        char word[16];
        int used = 0;
        if (sscanf(s, "%15s%n", word, &used) == 1) {
            char *p = s + used;
            uint64_t v[MAX_CHUNKS + 1];
            int k = 0;
            while (k <= MAX_CHUNKS) {
                char *q;
                uint64_t x = strtoull(p, &q, 10);
                if (q == p)
                    break;
                v[k++] = x;
                p = q;
            }
            if (!strcmp(word, "seed") && k == 1)
                seed = v[0];
            else if (!strcmp(word, "junk") && k == 1)
                junk = v[0];
            else if (!strcmp(word, "alloc") && k == 1)
                alloc_at = v[0];
            else if (!strcmp(word, "mem") && k == 1)
                mem = v[0];
            else if (k >= 1 && v[0] < TARGETS) {
                struct target *t = &T[v[0]];
                if (!strcmp(word, "std"))
                    owner[v[0]] = v[0];
                else if (!strcmp(word, "chunk"))
                    for (int i = 1; i < k; i++)
                        t->chunk[t->n_chunks++] = v[i];
                else if (!strcmp(word, "fault") && k == 4 && t->n_faults < MAX_FAULTS) {
                    struct fault f = { v[1], v[2], v[3], 0 };
                    t->fault[t->n_faults++] = f;
                } else if (!strcmp(word, "crash") && k == 2) {
                    t->crash = 1;
                    t->crash_at = v[1];
                } else if (!strcmp(word, "open") && k == 3) {
                    t->open_err = v[1];
                    t->open_times = v[2];
                }
            }
        }
        if (!end)
            break;
        s = end + 1;
    }
    for (long i = 0; i < junk; i++) {
        void *p = malloc(rnd() % 700);
        if (rnd() & 1)
            free(p);
    }
    active = 1;
}

static int name_target(const char *path)
{
    if (!strcmp(path, "in.txt"))
        return 0;
    if (!strcmp(path, "out.txt"))
        return 1;
    if (!strcmp(path, "pos.txt"))
        return 2;
    size_t n = strlen(path);
    if (n > 4 && !strcmp(path + n - 4, ".set"))
        return 3;
    return -1;
}

static int do_open(int dir, const char *path, int flags, mode_t mode)
{
    int t = active ? name_target(path) : -1;
    if (t >= 0 && T[t].open_err && (T[t].open_times == 0 || T[t].open_spent < T[t].open_times)) {
        T[t].open_spent++;
        note(E_OPENFAIL, t, T[t].open_err, 0, 0);
        errno = T[t].open_err;
        return -1;
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (t >= 0 && fd >= 0 && fd < MAX_FDS) {
        owner[fd] = t;
        note(E_OPEN, t, 0, 0, 0);
        if (t == 3 || (flags & O_TRUNC))
            T[t].pos = 0;
    }
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, flags); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }

int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }

int close(int fd)
{
    if (fd >= 0 && fd < MAX_FDS)
        owner[fd] = -1;
    return syscall(SYS_close, fd);
}

/* Decide how much of a transfer of `len` bytes takes place. */
static int64_t decide(struct target *t, int id, size_t len)
{
    if (t->crash && t->pos >= t->crash_at) {
        note(E_CRASH, id, 0, 0, t->pos);
        die();
    }
    uint64_t n = len;
    uint64_t step = 0;
    int has = 0;
    if (t->n_chunks) {
        step = t->chunk[t->next++ % t->n_chunks];
        has = 1;
    }
    if (has && step == 0 && t->eintr_row < 3) {
        t->eintr_row++;
        note(E_EINTR, id, EINTR, 0, t->pos);
        errno = EINTR;
        return -1;
    }
    t->eintr_row = 0;
    for (int i = 0; i < t->n_faults; i++) {
        struct fault *f = &t->fault[i];
        if (f->times && f->spent >= f->times)
            continue;
        if (f->off <= t->pos) {
            f->spent++;
            if (f->err == 0) {
                note(E_ZERO, id, 0, 0, t->pos);
                return 0;
            }
            note(E_ERROR, id, f->err, 0, t->pos);
            errno = f->err;
            return -1;
        }
        if (f->off - t->pos < n)
            n = f->off - t->pos;
    }
    if (t->crash && t->crash_at - t->pos < n)
        n = t->crash_at - t->pos;
    if (has && step > 0 && step < n)
        n = step;
    if (n < len)
        note(E_SHORT, id, 0, n, t->pos);
    return n;
}

ssize_t read(int fd, void *buf, size_t len)
{
    int id = active && fd >= 0 && fd < MAX_FDS ? owner[fd] : -1;
    if (id < 0 || len == 0)
        return syscall(SYS_read, fd, buf, len);
    struct target *t = &T[id];
    int64_t n = decide(t, id, len);
    if (n <= 0)
        return n;
    ssize_t r = syscall(SYS_read, fd, buf, (size_t)n);
    if (r > 0)
        t->pos += r;
    note(E_IO, id, 0, r < 0 ? 0 : r, t->pos);
    return r;
}

ssize_t write(int fd, const void *buf, size_t len)
{
    int id = active && fd >= 0 && fd < MAX_FDS ? owner[fd] : -1;
    if (id < 0 || len == 0)
        return syscall(SYS_write, fd, buf, len);
    struct target *t = &T[id];
    int64_t n = decide(t, id, len);
    if (n <= 0)
        return n;
    size_t done = 0;
    while (done < (size_t)n) {
        ssize_t r = syscall(SYS_write, fd, (const char *)buf + done, (size_t)n - done);
        if (r <= 0)
            break;
        done += r;
    }
    t->pos += done;
    note(E_IO, id, 0, done, t->pos);
    if (t->crash && t->pos >= t->crash_at) {
        note(E_CRASH, id, 0, 0, t->pos);
        die();
    }
    return done;
}

ssize_t readv(int fd, const struct iovec *v, int k)
{
    int id = active && fd >= 0 && fd < MAX_FDS ? owner[fd] : -1;
    if (id < 0)
        return syscall(SYS_readv, fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len)
            return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t writev(int fd, const struct iovec *v, int k)
{
    int id = active && fd >= 0 && fd < MAX_FDS ? owner[fd] : -1;
    if (id < 0)
        return syscall(SYS_writev, fd, v, k);
    for (int i = 0; i < k; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags)
{
    (void)flags;
    uint8_t *p = buf;
    for (size_t i = 0; i < len; i++)
        p[i] = rnd() >> 20;
    return len;
}

/* allocation */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static int no_memory(size_t n)
{
    if (!active || !alloc_at || ++allocs != alloc_at)
        return 0;
    note(E_ALLOC, 0, ENOMEM, n, allocs);
    errno = ENOMEM;
    return 1;
}

extern void __libc_free(void *);

/* one thread: no locking */
static void *got(void *p)
{
    if (mem && p) {
        live += malloc_usable_size(p);
        if (live > peak)
            peak = live;
    }
    return p;
}

void *malloc(size_t n) { return no_memory(n) ? NULL : got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return no_memory(a * b) ? NULL : got(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return no_memory(n) ? NULL : got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return no_memory(n) ? NULL : got(__libc_memalign(a, n)); }
void *realloc(void *p, size_t n)
{
    if (no_memory(n))
        return NULL;
    int64_t old = mem && p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || n == 0)
        live -= old;
    return got(q);
}
void free(void *p)
{
    if (mem && p)
        live -= malloc_usable_size(p);
    __libc_free(p);
}
int posix_memalign(void **p, size_t a, size_t n)
{
    if (no_memory(n))
        return ENOMEM;
    void *x = __libc_memalign(a, n);
    if (!x)
        return ENOMEM;
    *p = got(x);
    return 0;
}

__attribute__((destructor)) static void leave(void)
{
    if (mem)
        note(E_MEM, 0, 0, 0, peak);
}
