/* Runs many short processes quickly.
 * stdin:  jobs, each "nargs stdinlen\n" then nargs times "len\n<bytes>" then <stdin bytes>
 * stdout: per job "idx status timedout outlen errlen\n<out><err>"  (status: exit code, or -signal)
 * argv:   parallel timeout_seconds */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

typedef struct { pid_t pid; int out, err, idx; double t0; int killed; } Slot;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void *xm(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void dump(int fd, off_t n) {
    static char buf[1 << 16];
    lseek(fd, 0, SEEK_SET);
    while (n > 0) {
        ssize_t k = read(fd, buf, n < (off_t)sizeof buf ? (size_t)n : sizeof buf);
        if (k <= 0) { memset(buf, 0, sizeof buf); while (n > 0) { size_t m = n < (off_t)sizeof buf ? (size_t)n : sizeof buf; fwrite(buf, 1, m, stdout); n -= m; } return; }
        fwrite(buf, 1, (size_t)k, stdout); n -= k;
    }
}
int main(int argc, char **argv) {
    int par = argc > 1 ? atoi(argv[1]) : 8; double tmo = argc > 2 ? atof(argv[2]) : 60;
    Slot *s = xm(sizeof(Slot) * par); for (int i = 0; i < par; i++) s[i].pid = 0;
    sigset_t set; sigemptyset(&set); sigaddset(&set, SIGCHLD); sigprocmask(SIG_BLOCK, &set, NULL);
    signal(SIGPIPE, SIG_IGN);
    int idx = 0, live = 0, eof = 0;
    for (;;) {
        while (!eof && live < par) {
            int nargs; long sl;
            if (scanf("%d %ld", &nargs, &sl) != 2) { eof = 1; break; }
            getchar();
            char **av = xm(sizeof(char *) * (nargs + 1));
            for (int i = 0; i < nargs; i++) {
                long l; if (scanf("%ld", &l) != 1) return 3; getchar();
                av[i] = xm(l + 1); if (l && fread(av[i], 1, l, stdin) != (size_t)l) return 3; av[i][l] = 0;
            }
            av[nargs] = NULL;
            char *in = xm(sl); if (sl && fread(in, 1, sl, stdin) != (size_t)sl) return 3;
            int k = 0; while (s[k].pid) k++;
            int ifd = memfd_create("in", MFD_CLOEXEC); s[k].out = memfd_create("out", MFD_CLOEXEC); s[k].err = memfd_create("err", MFD_CLOEXEC);
            long w = 0; while (w < sl) { ssize_t r = write(ifd, in + w, sl - w); if (r <= 0) break; w += r; }
            lseek(ifd, 0, SEEK_SET);
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                setsid(); dup2(ifd, 0); dup2(s[k].out, 1); dup2(s[k].err, 2);
                sigprocmask(SIG_UNBLOCK, &set, NULL); signal(SIGPIPE, SIG_DFL);
                struct rlimit rl = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &rl);
                rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
                execvp(av[0], av); _exit(127);
            }
            close(ifd);
            s[k].pid = p; s[k].idx = idx++; s[k].t0 = now(); s[k].killed = 0; live++;
            for (int i = 0; i < nargs; i++) free(av[i]);
            free(av); free(in);
        }
        if (!live) break;
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            struct timespec ts = { 0, 50 * 1000 * 1000 };
            sigtimedwait(&set, NULL, &ts);
            double t = now();
            for (int k = 0; k < par; k++) if (s[k].pid && !s[k].killed && t - s[k].t0 > tmo) { s[k].killed = 1; kill(-s[k].pid, SIGKILL); kill(s[k].pid, SIGKILL); }
            continue;
        }
        for (int k = 0; k < par; k++) if (s[k].pid == p) {
            kill(-p, SIGKILL);
            off_t ol = lseek(s[k].out, 0, SEEK_END), el = lseek(s[k].err, 0, SEEK_END);
            if (ol < 0) ol = 0;
            if (el < 0) el = 0;
            printf("%d %d %d %ld %ld\n", s[k].idx, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), s[k].killed, (long)ol, (long)el);
            dump(s[k].out, ol); dump(s[k].err, el);
            close(s[k].out); close(s[k].err); s[k].pid = 0; live--;
        }
    }
    return 0;
}
