/* faults.c: libc faults on demand.  FAULT="function:nth:errno[,...]" makes the nth call of a function (counted from 1,
 * 0 = every call) fail with that errno.  FAULT_LOG names a file that receives one line per injected fault.  Only calls
 * made between fault_arm() calls from the monitored region count: a path holding "ARM" passed to access() arms,
 * "DISARM" disarms. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
static int armed, calls[64], fired;
static FILE *bad;
static const char *names[] = {"fopen","fread","fwrite","fclose","open","fdopen","rename","unlink","mkdir","rmdir","opendir","readdir","stat","lstat","mkstemp","mkdtemp","pipe","fork","select","read","write","glob","fstat","fseek",0};
static int hit(const char *fn) {
    if (!armed) return 0;
    int k = 0;
    while (names[k] && strcmp(names[k], fn)) k++;
    int n = ++calls[k];
    const char *p = getenv("FAULT");
    while (p && *p) {
        size_t l = strcspn(p, ":");
        if (l == strlen(fn) && !strncmp(p, fn, l)) {
            int nth = atoi(p + l + 1);
            const char *q = strchr(p + l + 1, ':');
            if (q && (nth == 0 || nth == n)) {
                errno = atoi(q + 1);
                int e = errno;
                fired++;
                const char *log = getenv("FAULT_LOG");
                if (log) {
                    int save = armed; armed = 0;
                    int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666);
                    if (fd >= 0) { dprintf(fd, "%s:%d\n", fn, n); close(fd); }
                    armed = save;
                }
                errno = e;
                return e;
            }
        }
        p = strchr(p, ',');
        if (p) p++;
    }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
int access(const char *p, int m) {
    REAL(int, access, const char *, int);
    if (p && strstr(p, "DISARM")) armed = 0;
    else if (p && strstr(p, "ARM")) armed = 1;
    return real(p, m);
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return hit("fopen") ? NULL : real(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) { REAL(FILE *, fdopen, int, const char *); return hit("fdopen") ? NULL : real(fd, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int e = hit("fread");
    if (e) { size_t g = n > 1 ? real(b, s, n / 2, f) : 0; bad = f; errno = e; return g; }
    return real(b, s, n, f);
}
int ferror(FILE *f) { REAL(int, ferror, FILE *); return f == bad ? 1 : real(f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    if (f != stdout && f != stderr) { int e = hit("fwrite"); if (e) { size_t g = n / 2 ? real(b, s, n / 2, f) : 0; errno = e; return g; } }
    return real(b, s, n, f);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    int e = hit("fclose");
    if (f == bad) bad = NULL;
    int r = real(f);
    if (e) { errno = e; return EOF; }
    return r;
}
int fseek(FILE *f, long o, int w) { REAL(int, fseek, FILE *, long, int); return hit("fseek") ? -1 : real(f, o, w); }
int open(const char *p, int fl, ...) {
    REAL(int, open, const char *, int, ...);
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    return hit("open") ? -1 : real(p, fl, m);
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); return hit("rename") ? -1 : real(a, b); }
int unlink(const char *a) { REAL(int, unlink, const char *); return hit("unlink") ? -1 : real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); return hit("mkdir") ? -1 : real(a, m); }
int rmdir(const char *a) { REAL(int, rmdir, const char *); return hit("rmdir") ? -1 : real(a); }
DIR *opendir(const char *a) { REAL(DIR *, opendir, const char *); return hit("opendir") ? NULL : real(a); }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, readdir, DIR *); return hit("readdir") ? NULL : real(d); }
int mkstemp(char *t) { REAL(int, mkstemp, char *); return hit("mkstemp") ? -1 : real(t); }
char *mkdtemp(char *t) { REAL(char *, mkdtemp, char *); return hit("mkdtemp") ? NULL : real(t); }
int pipe(int f[2]) { REAL(int, pipe, int *); return hit("pipe") ? -1 : real(f); }
pid_t fork(void) { REAL(pid_t, fork, void); return hit("fork") ? -1 : real(); }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) { REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *); return hit("select") ? -1 : real(n, r, w, x, t); }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return hit("read") ? -1 : real(fd, b, n); }
