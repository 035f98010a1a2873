/* Replaces the system calls of freqcd by a scripted world, the same as class
 * IO of csym.py. Linked with -Wl,--wrap=<call>. Script: file named by
 * FREQCD_SCRIPT; results: file named by FREQCD_RESULT. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <errno.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK_INIT
#define CHECK_INIT(p, n) ((void)0)
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define CHECK_SPACE(p, n) do { if ((n) && __asan_region_is_poisoned(p, n)) { \
    fprintf(stderr, "ERROR: AddressSanitizer: read() target too small\n"); _exit(99); } } while (0)
#else
#define CHECK_SPACE(p, n) ((void)0)
#endif

enum { NONE, TTY, IN, OUT, FQ, ERR };
static const char *kinds[] = {"none", "tty", "in", "out", "fq", "err"};
#define NFD 64
static int fds[NFD], nonblock[NFD];
#define MAXR 4096
static int ri[MAXR], rq[MAXR], rs[MAXR], nr;      /* -1 = e, -2 = c */
static char names[16][256];
static int namekind[16], nn;
static unsigned char *data[2];
static long dlen[2], pos[2], av[2];
static int flag[2];                               /* 0, 'e', 'c' */
static int k, over, late;
static long wlimit = -1, outlen;
static int wshort, mleft = -1;
static FILE *res;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);

static void fin(const char *why) { fprintf(res, "end %s\n", why); fflush(res); _exit(97); }

static long hexread(FILE *f, unsigned char **p) {
    long n;
    if (fscanf(f, "%ld", &n) != 1) abort();
    *p = __real_malloc(n + 1);
    for (long i = 0; i < n; i++) {
        unsigned v;
        if (fscanf(f, "%2x", &v) != 1) abort();
        (*p)[i] = v;
    }
    return n;
}

__attribute__((constructor)) static void begin(void) {
    const char *s = getenv("FREQCD_SCRIPT"), *r = getenv("FREQCD_RESULT");
    FILE *f = s ? fopen(s, "r") : NULL;
    if (!f || !r || !(res = fopen(r, "w"))) abort();
    setvbuf(res, NULL, _IOLBF, 1 << 16);
    char w[32];
    int hasin = 0;
    while (fscanf(f, "%31s", w) == 1) {
        if (!strcmp(w, "round")) {
            if (fscanf(f, "%d %d %d", &ri[nr], &rq[nr], &rs[nr]) != 3) abort();
            nr++;
        } else if (!strcmp(w, "name")) {
            unsigned char *p;
            long n = hexread(f, &p);
            char kd[16];
            if (fscanf(f, "%15s", kd) != 1) abort();
            memcpy(names[nn], p, n > 255 ? 255 : n);
            free(p);
            for (int i = 0; i < 6; i++) if (!strcmp(kd, kinds[i])) namekind[nn] = i;
            if (namekind[nn] == IN) hasin = 1;
            nn++;
        } else if (!strcmp(w, "inp")) dlen[0] = hexread(f, &data[0]);
        else if (!strcmp(w, "freq")) dlen[1] = hexread(f, &data[1]);
        else if (!strcmp(w, "wfault")) {
            if (fscanf(f, "%ld %d", &wlimit, &wshort) != 2) abort();
        } else if (!strcmp(w, "mfault")) {
            if (fscanf(f, "%d", &mleft) != 1) abort();
        } else abort();
    }
    fclose(f);
    fds[0] = hasin ? TTY : IN;
    fds[1] = OUT;
    fds[2] = ERR;
}

static int advance(void) {                        /* returns 1 if the wait fails */
    int bad = 0;
    if (k < nr) {
        int v[2] = {ri[k], rq[k]};
        for (int i = 0; i < 2; i++) {
            if (v[i] == -1) flag[i] = 'e';
            else if (v[i] == -2) flag[i] = 'c';
            else av[i] += v[i];
        }
        bad = rs[k];
    } else if (!flag[0]) flag[0] = 'c';
    k++;
    return bad;
}

static int kind(int fd) { return fd >= 0 && fd < NFD ? fds[fd] : NONE; }
static int str(int kd) { return kd == IN ? 0 : kd == FQ ? 1 : -1; }
static int ready(int fd) { int s = str(kind(fd)); return s >= 0 && (av[s] > 0 || flag[s]); }

int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (tv) CHECK_INIT(tv, sizeof *tv);
    if (r) CHECK_INIT(r, sizeof *r);
    for (;;) {
        int bad = advance(), c = 0;
        fprintf(res, "wait\n");
        if (k > nr + 60) fin("hang");
        if (bad) { errno = 4; return -1; }
        int any = 0;
        for (int i = 0; r && i < n && i < NFD; i++) if (FD_ISSET(i, r) && ready(i)) any = 1;
        if (!any && !tv) continue;
        if (r) for (int i = 0; i < n; i++) {
            if (FD_ISSET(i, r) && ready(i)) c++;
            else FD_CLR(i, r);
        }
        if (w) for (int i = 0; i < n; i++) if (FD_ISSET(i, w)) c++;
        if (x) FD_ZERO(x);
        return c;
    }
}

int __wrap_poll(struct pollfd *p, nfds_t n, int timeout) {
    for (;;) {
        int bad = advance(), c = 0;
        fprintf(res, "wait\n");
        if (k > nr + 60) fin("hang");
        if (bad) { errno = 4; return -1; }
        int any = 0;
        for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && (p[i].events & 1) && ready(p[i].fd)) any = 1;
        if (!any && timeout < 0) continue;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = (p[i].fd >= 0 && (p[i].events & 1) && ready(p[i].fd) ? 1 : 0) | (p[i].events & 4);
            c += p[i].revents != 0;
        }
        return c;
    }
}

ssize_t __wrap_read(int fd, void *buf, size_t n) {
    int kd = kind(fd), s = str(kd);
    if (s < 0) { fprintf(res, "read %s -1\n", kinds[kd]); errno = 9; return -1; }
    if (n > ((size_t)1 << 62)) { fprintf(stderr, "ERROR: negative size\n"); errno = 14; return -1; }
    CHECK_SPACE(buf, n);
    if (n == 0) return 0;
    while (!ready(fd)) {
        if (nonblock[fd]) { fprintf(res, "read %s -1\n", kinds[kd]); errno = 11; return -1; }
        if (k > nr + 60) fin("hang");
        advance();
    }
    if (av[s]) {
        long m = (long)n < av[s] ? (long)n : av[s];
        if (pos[s] + m > dlen[s]) fin("script");
        av[s] -= m;
        memcpy(buf, data[s] + pos[s], m);
        pos[s] += m;
        fprintf(res, "read %s %ld\n", kinds[kd], m);
        return m;
    }
    if (++late > 200) fin("hang");
    fprintf(res, "read %s %d\n", kinds[kd], flag[s] == 'e' ? -1 : 0);
    if (flag[s] == 'e') { errno = 5; return -1; }
    return 0;
}

static void put(const unsigned char *p, long n) {
    fprintf(res, "out ");
    for (long i = 0; i < n; i++) fprintf(res, "%02x", p[i]);
    fprintf(res, "\n");
    outlen += n;
}

ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    int kd = kind(fd);
    if (kd == ERR) return n;
    if (kd != OUT) { errno = 9; return -1; }
    if (n == 0) return 0;
    CHECK_INIT(buf, n);
    CHECK_SPACE((void *)buf, n);
    if (wlimit >= 0 && outlen + (long)n > wlimit) {
        long m = wlimit - outlen;
        if (wshort && m > 0 && !over) {
            over = 1;
            put(buf, m);
            fprintf(res, "write %ld %ld\n", (long)n, m);
            return m;
        }
        over = 1;
        fprintf(res, "write %ld -1\n", (long)n);
        errno = 32;
        return -1;
    }
    put(buf, n);
    fprintf(res, "write %ld %ld\n", (long)n, (long)n);
    return n;
}

int __wrap_open(const char *name, int flags, ...) {
    int kd = NONE;
    for (int i = 0; i < nn; i++) if (!strcmp(names[i], name)) { kd = namekind[i]; break; }
    int fd = -1;
    if (kd != NONE) {
        for (fd = 3; fds[fd]; fd++);
        fds[fd] = kd;
        if (kd == OUT) fds[1] = TTY;
        nonblock[fd] = !!(flags & 04000);
    } else errno = 2;
    fprintf(res, "open ");
    for (const unsigned char *p = (const unsigned char *)name; *p; p++) fprintf(res, "%02x", *p);
    fprintf(res, "- %d %d\n", flags, fd);
    return fd;
}

int __wrap_close(int fd) {
    if (!kind(fd)) return -1;
    fds[fd] = NONE;
    return 0;
}

int __wrap_fcntl(int fd, int cmd, ...) {
    va_list a;
    va_start(a, cmd);
    int v = va_arg(a, int);
    va_end(a);
    if (cmd == 3) return nonblock[fd] ? 04000 : 0;
    if (cmd == 4) nonblock[fd] = !!(v & 04000);
    return 0;
}

static int mfail(void) {
    if (mleft < 0) return 0;
    if (mleft == 0) return 1;
    mleft--;
    return 0;
}
void *__wrap_malloc(size_t n) { return mfail() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return mfail() ? NULL : __real_calloc(n, m); }
unsigned __wrap_sleep(unsigned n) { (void)n; return 0; }
int __wrap_usleep(useconds_t n) { (void)n; return 0; }
int __wrap_nanosleep(const void *a, void *b) { (void)a; (void)b; return 0; }
int __wrap_isatty(int fd) { (void)fd; return 0; }
/* library abs() with the undefined case made visible */
int __wrap_abs(int v) {
    if (v == -2147483647 - 1) { fprintf(stderr, "runtime error: abs of INT_MIN\n"); _exit(99); }
    return v < 0 ? -v : v;
}
long __wrap_labs(long v) {
    if (v == -9223372036854775807L - 1) { fprintf(stderr, "runtime error: labs of LONG_MIN\n"); _exit(99); }
    return v < 0 ? -v : v;
}
