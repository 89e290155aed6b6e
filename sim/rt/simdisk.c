/* Simulated disk below /simdisk/ : see simrt.c for the overall picture.
 *
 * Model: files are inodes with a cached content (what the running process
 * sees) and a durable content. Every write/truncate since the last fsync is
 * kept in a journal. A power loss keeps the durable content plus an arbitrary
 * (seeded) choice of the unsynced operations, each possibly torn; directory
 * operations (create, rename, unlink) survive as an arbitrary prefix of their
 * order, unless an fsync forced them. A process crash keeps everything that
 * reached the cache.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

int sim_active(void);
int sim_me(void);
void sim_rt_note(const char *);
void sim_op_point(void);

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long re(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

struct jop { int trunc; size_t off, len; uint8_t *data; };
struct inode { int used; uint8_t *c; size_t cl; uint8_t *d; size_t dl; struct jop *j; int nj; };
struct dent { char name[160]; int ino; };
struct dop { int kind; char a[160], b[160]; int ino; }; /* 1 create, 2 rename, 3 unlink */
#define MI 256
#define MD 256
static struct inode I[MI];
static struct dent D[MD], DD[MD]; static int nD, nDD;   /* cached / durable directory */
static struct dop DJ[1024]; static int nDJ;
struct ofd { int used, ino, flags; size_t pos; };
#define FD0 1000000
#define MF 256
static struct ofd F[MF];
static uint64_t ops;
static int crashed; static int64_t crash_at = -1; static int crash_mode; static uint64_t crash_seed;
struct flt { uint64_t at; int kind, err; };  /* kind 1: fail with err; 2: short (1 byte); 3: short half */
static struct flt FL[64]; static int nFL;
static uint64_t fired[8];

static uint64_t nx(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}

static int find(struct dent *d, int n, const char *p) { for (int i = 0; i < n; i++) if (!strcmp(d[i].name, p)) return i; return -1; }
static void dset(struct dent *d, int *n, const char *p, int ino) {
    int i = find(d, *n, p);
    if (i < 0) { if (*n >= MD) abort(); i = (*n)++; snprintf(d[i].name, sizeof d[i].name, "%s", p); }
    d[i].ino = ino;
}
static void ddel(struct dent *d, int *n, const char *p) { int i = find(d, *n, p); if (i >= 0) d[i] = d[--(*n)]; }
static void dapply(struct dent *d, int *n, struct dop *o) {
    if (o->kind == 1) dset(d, n, o->a, o->ino);
    else if (o->kind == 2) { int i = find(d, *n, o->a); if (i >= 0) { int ino = d[i].ino; ddel(d, n, o->a); dset(d, n, o->b, ino); } else { dset(d, n, o->b, o->ino); } }
    else if (o->kind == 3) ddel(d, n, o->a);
}
static void dop(int kind, const char *a, const char *b, int ino) {
    if (nDJ >= 1024) abort();
    struct dop *o = &DJ[nDJ++]; o->kind = kind; o->ino = ino; snprintf(o->a, 160, "%s", a); snprintf(o->b, 160, "%s", b ? b : "");
    dapply(D, &nD, o);
}
static int newino(void) { for (int i = 0; i < MI; i++) if (!I[i].used) { memset(&I[i], 0, sizeof I[i]); I[i].used = 1; return i; } abort(); }
static void japply(uint8_t **b, size_t *l, struct jop *o, size_t keep) {
    if (o->trunc) { if (o->off < *l) *l = o->off; else { *b = realloc(*b, o->off + 1); memset(*b + *l, 0, o->off - *l); *l = o->off; } return; }
    size_t e = o->off + keep;
    if (e > *l) { *b = realloc(*b, e + 1); if (o->off > *l) memset(*b + *l, 0, o->off - *l); *l = e; }
    memcpy(*b + o->off, o->data, keep);
}
static void jadd(struct inode *n, int trunc, size_t off, const void *data, size_t len) {
    n->j = realloc(n->j, sizeof(struct jop) * (n->nj + 1));
    struct jop *o = &n->j[n->nj++]; o->trunc = trunc; o->off = off; o->len = len; o->data = NULL;
    if (len) { o->data = malloc(len); memcpy(o->data, data, len); }
    japply(&n->c, &n->cl, o, len);
}
static void flush_ino(struct inode *n) { for (int i = 0; i < n->nj; i++) { japply(&n->d, &n->dl, &n->j[i], n->j[i].len); free(n->j[i].data); } n->nj = 0; }
static void flush_dir(void) { for (int i = 0; i < nDJ; i++) dapply(DD, &nDD, &DJ[i]); nDJ = 0; }

static void do_crash(void) {
    crashed = 1;
    uint64_t s = crash_seed;
    if (crash_mode == 0) { /* process crash: the cache survives */
        for (int i = 0; i < MI; i++) if (I[i].used) flush_ino(&I[i]);
        flush_dir();
        fired[5]++;
    } else {
        fired[6]++;
        int keepd = nDJ ? (int)(nx(&s) % (nDJ + 1)) : 0;
        if (nx(&s) % 3 == 0) keepd = nDJ;
        for (int i = 0; i < keepd; i++) dapply(DD, &nDD, &DJ[i]);
        nDJ = 0;
        int lazy = nx(&s) % 3; /* 0: nothing unsynced survives, 1: mixed, 2: mostly survives */
        for (int i = 0; i < MI; i++) if (I[i].used) {
            for (int k = 0; k < I[i].nj; k++) {
                struct jop *o = &I[i].j[k];
                uint64_t r = nx(&s) % 8;
                if (lazy == 0 && !o->trunc) continue;
                if (lazy == 1 && r < 3) continue;
                size_t keep = o->len;
                if (r == 3 || r == 4) { keep = o->len ? nx(&s) % (o->len + 1) : 0; if (keep < o->len) fired[7]++; }
                japply(&I[i].d, &I[i].dl, o, keep);
            }
            I[i].nj = 0;
        }
    }
}

/* returns 0 = go on, <0 = -errno, 2/3 = short */
static int gate(void) {
    if (crashed) return -EIO;
    uint64_t k = ops++;
    if (crash_at >= 0 && k == (uint64_t)crash_at) { do_crash(); return -EIO; }
    for (int i = 0; i < nFL; i++) if (FL[i].at == k) { fired[FL[i].kind & 3]++; if (FL[i].kind == 1) return -FL[i].err; return FL[i].kind; }
    return 0;
}

/* ---- control */
void sim_disk_reset(void) { memset(I, 0, sizeof I); nD = nDD = nDJ = 0; memset(F, 0, sizeof F); ops = 0; crashed = 0; crash_at = -1; nFL = 0; memset(fired, 0, sizeof fired); }
void sim_disk_put(const char *p, const void *data, size_t len) {
    int ino = newino(); I[ino].c = malloc(len + 1); memcpy(I[ino].c, data, len); I[ino].cl = len;
    I[ino].d = malloc(len + 1); memcpy(I[ino].d, data, len); I[ino].dl = len;
    dset(D, &nD, p, ino); dset(DD, &nDD, p, ino);
}
int64_t sim_disk_get(const char *p, void *buf, size_t max) {
    int i = find(D, nD, p); if (i < 0) return -1;
    struct inode *n = &I[D[i].ino]; size_t l = n->cl < max ? n->cl : max; memcpy(buf, n->c, l); return (int64_t)n->cl;
}
int64_t sim_disk_flip(const char *p, size_t off, int x) { int i = find(D, nD, p); if (i < 0) return -1; struct inode *n = &I[D[i].ino]; if (off >= n->cl) return -1; n->c[off] ^= x; if (off < n->dl) n->d[off] ^= x; return 0; }
int sim_disk_del(const char *p) { ddel(D, &nD, p); ddel(DD, &nDD, p); return 0; }
void sim_disk_fault(uint64_t at, int kind, int err) { if (nFL < 64) { FL[nFL].at = at; FL[nFL].kind = kind; FL[nFL].err = err; nFL++; } }
void sim_disk_clear_faults(void) { nFL = 0; crash_at = -1; }
void sim_disk_crash_at(int64_t at, int mode, uint64_t seed) { crash_at = at; crash_mode = mode; crash_seed = seed; }
void sim_disk_crash_now(int mode, uint64_t seed) { crash_mode = mode; crash_seed = seed; do_crash(); }
int sim_disk_crashed(void) { return crashed; }
uint64_t sim_disk_ops(void) { return ops; }
uint64_t sim_disk_fired(int i) { return fired[i]; }
int sim_disk_count(void) { return nD; }
void sim_disk_recover(void) {
    for (int i = 0; i < MI; i++) if (I[i].used) {
        I[i].c = realloc(I[i].c, I[i].dl + 1); if (I[i].dl) memcpy(I[i].c, I[i].d, I[i].dl); I[i].cl = I[i].dl; I[i].nj = 0;
    }
    memcpy(D, DD, sizeof D); nD = nDD; nDJ = 0; memset(F, 0, sizeof F); crashed = 0; crash_at = -1; nFL = 0;
}

/* ---- interposed calls */
static int on(const char *p) { return sim_active() && sim_me() >= 0 && p && !strncmp(p, "/simdisk/", 9); }
static struct ofd *of(int fd) { if (fd >= FD0 && fd < FD0 + MF && F[fd - FD0].used) return &F[fd - FD0]; return NULL; }

static int sim_open(const char *p, int fl) {
    sim_rt_note("open"); sim_op_point();
    int g = gate(); if (g < 0) { errno = -g; return -1; }
    if (!p[9]) { errno = EISDIR; if (fl & O_DIRECTORY || (fl & O_ACCMODE) == O_RDONLY) { for (int i = 0; i < MF; i++) if (!F[i].used) { F[i].used = 1; F[i].ino = -1; return FD0 + i; } } return -1; }
    int i = find(D, nD, p), ino;
    if (i < 0) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } ino = newino(); dop(1, p, NULL, ino); }
    else { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; } ino = D[i].ino; }
    if ((fl & O_TRUNC) && I[ino].cl) jadd(&I[ino], 1, 0, NULL, 0);
    for (int k = 0; k < MF; k++) if (!F[k].used) { F[k].used = 1; F[k].ino = ino; F[k].flags = fl; F[k].pos = 0; return FD0 + k; }
    errno = EMFILE; return -1;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (on(p)) return sim_open(p, fl); sim_rt_note("open"); return (int)re(raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (on(p)) return sim_open(p, fl); sim_rt_note("open"); return (int)re(raw6(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, m, 0, 0)); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (on(p)) return sim_open(p, fl); return (int)re(raw6(SYS_openat, d, (long)p, fl, m, 0, 0)); }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (on(p)) return sim_open(p, fl); return (int)re(raw6(SYS_openat, d, (long)p, fl | O_LARGEFILE, m, 0, 0)); }

static ssize_t do_read(struct ofd *f, void *b, size_t n, size_t pos) {
    sim_op_point();
    int g = gate(); if (g < 0) { errno = -g; return -1; }
    if (f->ino < 0) { errno = EISDIR; return -1; }
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    struct inode *i = &I[f->ino];
    if (pos >= i->cl) return 0;
    size_t l = i->cl - pos; if (l > n) l = n;
    if (g == 2 && l > 1) l = 1; if (g == 3 && l > 1) l /= 2;
    memcpy(b, i->c + pos, l); return (ssize_t)l;
}
ssize_t read(int fd, void *b, size_t n) { struct ofd *f = of(fd); sim_rt_note("read"); if (!f) return re(raw6(SYS_read, fd, (long)b, n, 0, 0, 0)); ssize_t r = do_read(f, b, n, f->pos); if (r > 0) f->pos += r; return r; }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { struct ofd *f = of(fd); if (!f) return re(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0)); return do_read(f, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) { struct ofd *f = of(fd); if (!f) return re(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0)); return c ? read(fd, v[0].iov_base, v[0].iov_len) : 0; }
static ssize_t do_write(struct ofd *f, const void *b, size_t n) {
    sim_op_point();
    int g = gate(); if (g < 0) { errno = -g; return -1; }
    if (f->ino < 0 || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    size_t l = n; if (g == 2 && l > 1) l = 1; if (g == 3 && l > 1) l /= 2;
    struct inode *i = &I[f->ino];
    if (f->flags & O_APPEND) f->pos = i->cl;
    if (l) jadd(i, 0, f->pos, b, l);
    f->pos += l; return (ssize_t)l;
}
ssize_t write(int fd, const void *b, size_t n) { struct ofd *f = of(fd); sim_rt_note("write"); if (!f) return re(raw6(SYS_write, fd, (long)b, n, 0, 0, 0)); return do_write(f, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { struct ofd *f = of(fd); if (!f) return re(raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0)); size_t p = f->pos; f->pos = o; ssize_t r = do_write(f, b, n); f->pos = p; return r; }
ssize_t writev(int fd, const struct iovec *v, int c) {
    struct ofd *f = of(fd); sim_rt_note("writev"); if (!f) return re(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
    size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; uint8_t *b = malloc(t + 1); size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = do_write(f, b, t); free(b); return r;
}
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (of(fd)) return 0; return (int)re(raw6(SYS_fcntl, fd, c, a, 0, 0, 0)); }
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (of(fd)) return 0; return (int)re(raw6(SYS_fcntl, fd, c, a, 0, 0, 0)); }
int close(int fd) { struct ofd *f = of(fd); if (!f) return (int)re(raw6(SYS_close, fd, 0, 0, 0, 0, 0)); f->used = 0; return 0; }
static int do_sync(struct ofd *f) { sim_op_point(); int g = gate(); if (g < 0) { errno = -g; return -1; } if (f->ino >= 0) flush_ino(&I[f->ino]); flush_dir(); fired[4]++; return 0; }
int fsync(int fd) { struct ofd *f = of(fd); if (!f) return (int)re(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0)); return do_sync(f); }
int fdatasync(int fd) { struct ofd *f = of(fd); if (!f) return (int)re(raw6(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); return do_sync(f); }
int rename(const char *a, const char *b) {
    if (!on(a)) return (int)re(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
    sim_op_point(); int g = gate(); if (g < 0) { errno = -g; return -1; }
    int i = find(D, nD, a); if (i < 0) { errno = ENOENT; return -1; }
    dop(2, a, b, D[i].ino); return 0;
}
int renameat(int d1, const char *a, int d2, const char *b) { (void)d1; (void)d2; return rename(a, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { if (!on(a)) return (int)re(raw6(SYS_renameat2, d1, (long)a, d2, (long)b, fl, 0)); return rename(a, b); }
int unlink(const char *p) { if (!on(p)) return (int)re(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0)); sim_op_point(); int g = gate(); if (g < 0) { errno = -g; return -1; } if (find(D, nD, p) < 0) { errno = ENOENT; return -1; } dop(3, p, NULL, -1); return 0; }
int ftruncate64(int fd, off_t n) { struct ofd *f = of(fd); if (!f) return (int)re(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0)); int g = gate(); if (g < 0) { errno = -g; return -1; } jadd(&I[f->ino], 1, n, NULL, 0); return 0; }
off_t lseek64(int fd, off_t o, int wh) {
    struct ofd *f = of(fd); if (!f) return re(raw6(SYS_lseek, fd, o, wh, 0, 0, 0));
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)(f->ino >= 0 ? I[f->ino].cl : 0);
    if (base + o < 0) { errno = EINVAL; return -1; } f->pos = base + o; return f->pos;
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
static int fillst(int ino, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = ino < 0 ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = ino < 0 ? 0 : I[ino].cl; s->st_ino = ino + 10; s->st_nlink = 1; s->st_blksize = 4096; return 0; }
int fstat64(int fd, struct stat64 *s) { struct ofd *f = of(fd); if (!f) return (int)re(raw6(SYS_fstat, fd, (long)s, 0, 0, 0, 0)); return fillst(f->ino, (struct stat *)s); }
int stat64(const char *p, struct stat64 *s) { if (!on(p)) return (int)re(raw6(SYS_stat, (long)p, (long)s, 0, 0, 0, 0)); int i = find(D, nD, p); if (i < 0) { errno = ENOENT; return -1; } return fillst(D[i].ino, (struct stat *)s); }
int lstat64(const char *p, struct stat64 *s) { if (!on(p)) return (int)re(raw6(SYS_lstat, (long)p, (long)s, 0, 0, 0, 0)); return stat64(p, s); }
int statx(int dfd, const char *p, int fl, unsigned mask, struct statx *x) {
    int ino; struct ofd *f = of(dfd);
    if (f && (!(uintptr_t)p || !*p)) ino = f->ino;
    else if (on(p)) { int i = find(D, nD, p); if (i < 0) { errno = ENOENT; return -1; } ino = D[i].ino; }
    else return (int)re(raw6(SYS_statx, dfd, (long)p, fl, mask, (long)x, 0));
    memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = ino < 0 ? S_IFDIR | 0755 : S_IFREG | 0644;
    x->stx_size = ino < 0 ? 0 : I[ino].cl; x->stx_ino = ino + 10; x->stx_nlink = 1; x->stx_blksize = 4096; return 0;
}
int access(const char *p, int m) { if (!on(p)) return (int)re(raw6(SYS_access, (long)p, m, 0, 0, 0, 0)); if (find(D, nD, p) < 0) { errno = ENOENT; return -1; } return 0; }
