/* Preloaded into the log shipper: before every file-system call that touches the watched directory or the state
   database, and before it goes to sleep, the call is announced on one pipe and made only when told so on another.   */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <unistd.h>
#define MAXFD 1024
static int req = -1, ack = -1, ino = -1;
static const char *dir, *db;
static char kind[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
__attribute__((constructor)) static void init(void) {
    r_read = dlsym(RTLD_NEXT, "read"); r_write = dlsym(RTLD_NEXT, "write");
    dir = getenv("SHIM_DIR"); db = getenv("SHIM_DB");
    const char *f = getenv("SHIM_FDS");
    if (f && dir && db) sscanf(f, "%d,%d", &req, &ack);
    unsetenv("LD_PRELOAD");
}
static char step(const char *what, const char *arg) {
    if (req < 0) return 'c';
    char buf[512], c = 0;
    int n = snprintf(buf, sizeof buf, "%s %.400s\n", what, arg ? arg : "");
    pthread_mutex_lock(&mu);
    int e = errno;
    if (r_write(req, buf, n) != n || r_read(ack, &c, 1) != 1) { req = -1; c = 'c'; }
    errno = e;
    pthread_mutex_unlock(&mu);
    if (c == 'k') { kill(getpid(), SIGKILL); pause(); }
    return c;
}
static int which(const char *p) {
    if (req < 0 || !p) return 0;
    if (!strncmp(p, dir, strlen(dir))) return 1;
    if (!strncmp(p, db, strlen(db))) return 2;
    return 0;
}
static const char *tail(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
#define OPEN(name, sym) int name(const char *p, int fl, ...) { \
    static int (*real)(const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, sym); \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    int w = which(p); if (w) step(w == 1 ? "open" : "dbopen", tail(p)); \
    int fd = real(p, fl, m); if (w && fd >= 0 && fd < MAXFD) kind[fd] = w; return fd; }
OPEN(open, "open") OPEN(open64, "open64")
int close(int fd) { static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < MAXFD) kind[fd] = 0; return real(fd); }
#define STAT(name) int name(const char *p, struct stat *s) { static int (*real)(const char *, struct stat *); if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (which(p) == 1) step("stat", tail(p)); return real(p, s); }
STAT(stat) STAT(lstat)
int stat64(const char *p, struct stat64 *s) { static int (*real)(const char *, struct stat64 *); if (!real) real = dlsym(RTLD_NEXT, "stat64");
    if (which(p) == 1) step("stat", tail(p)); return real(p, s); }
ssize_t read(int fd, void *b, size_t n) { if (fd >= 0 && fd < MAXFD && kind[fd] == 1) step("read", ""); return r_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd >= 0 && fd < MAXFD && kind[fd] == 2) step("dbwrite", ""); return r_write(fd, b, n); }
#define PW(name) ssize_t name(int fd, const void *b, size_t n, off_t o) { static ssize_t (*real)(int, const void *, size_t, off_t); if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (fd >= 0 && fd < MAXFD && kind[fd] == 2) step("dbwrite", ""); return real(fd, b, n, o); }
PW(pwrite) PW(pwrite64)
int fdatasync(int fd) { if (fd >= 0 && fd < MAXFD && kind[fd] == 2) step("dbsync", ""); return 0; }   /* only processes crash here, not the machine */
int fsync(int fd) { if (fd >= 0 && fd < MAXFD && kind[fd] == 2) step("dbsync", ""); return 0; }
int unlink(const char *p) { static int (*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "unlink"); if (which(p) == 2) step("dbunlink", tail(p)); return real(p); }
DIR *opendir(const char *p) { static DIR *(*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "opendir"); if (which(p) == 1) step("list", ""); return real(p); }
int inotify_init1(int f) { static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "inotify_init1"); return ino = real(f); }
int inotify_init(void) { static int (*real)(void); if (!real) real = dlsym(RTLD_NEXT, "inotify_init"); return ino = real(); }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    static int (*real)(int, fd_set *, fd_set *, fd_set *, struct timeval *); if (!real) real = dlsym(RTLD_NEXT, "select");
    if (req >= 0 && ino >= 0 && ino < n && r && FD_ISSET(ino, r)) {
        if (step("idle", "") == 'w') { struct timeval z = {0, 0}; return real(n, r, w, x, &z); }
        if (req >= 0) { FD_ZERO(r); return 0; }                     /* the time is up */
    }
    return real(n, r, w, x, t);
}
int poll(struct pollfd *p, nfds_t n, int t) {
    static int (*real)(struct pollfd *, nfds_t, int); if (!real) real = dlsym(RTLD_NEXT, "poll");
    for (nfds_t k = 0; req >= 0 && ino >= 0 && k < n; k++) if (p[k].fd == ino) {
        if (step("idle", "") == 'w') return real(p, n, 0);
        if (req >= 0) { for (nfds_t j = 0; j < n; j++) p[j].revents = 0; return 0; }
    }
    return real(p, n, t);
}
