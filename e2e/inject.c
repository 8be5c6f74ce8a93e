/* Runs a command under ptrace and makes the n-th file operation on files below a directory fail.
   inject DIR N MODE LOG CMD...
   MODE: count (no fault), once, sticky (this and all later operations of that kind on that file), short (half the
   transfer), kill (the process is killed there).  LOG gets one line per operation and a last line EXIT/SIGNAL n. */
#define _GNU_SOURCE
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>

enum { OPEN, READ, WRITE, SEEK, CLOSE, UNLINK, SYNC, TRUNC, RENAME, STAT, NONE };
static char const *const NAMES[] = { "open", "read", "write", "seek", "close", "unlink", "sync", "truncate", "rename", "stat" };
static struct { long nr; int kind, patharg, fdarg; } const T[] = {
    { SYS_open, OPEN, 0, -1 }, { SYS_creat, OPEN, 0, -1 }, { SYS_openat, OPEN, 1, -1 }, { SYS_read, READ, -1, 0 }, { SYS_pread64, READ, -1, 0 }, { SYS_readv, READ, -1, 0 },
    { SYS_write, WRITE, -1, 0 }, { SYS_pwrite64, WRITE, -1, 0 }, { SYS_writev, WRITE, -1, 0 }, { SYS_lseek, SEEK, -1, 0 }, { SYS_close, CLOSE, -1, 0 },
    { SYS_unlink, UNLINK, 0, -1 }, { SYS_unlinkat, UNLINK, 1, -1 }, { SYS_fsync, SYNC, -1, 0 }, { SYS_fdatasync, SYNC, -1, 0 }, { SYS_ftruncate, TRUNC, -1, 0 },
    { SYS_truncate, TRUNC, 0, -1 }, { SYS_rename, RENAME, 0, -1 }, { SYS_renameat, RENAME, 1, -1 }, { SYS_renameat2, RENAME, 1, -1 },
    { SYS_fstat, STAT, -1, 0 }, { SYS_newfstatat, STAT, 1, 0 }, { SYS_access, STAT, 0, -1 }, { SYS_stat, STAT, 0, -1 },
};
static pid_t pid;
static char dir[4096];
static size_t dlen;

static unsigned long long arg(struct user_regs_struct const *r, int i)
{
    switch (i) { case 0: return r->rdi; case 1: return r->rsi; case 2: return r->rdx; default: return r->r10; }
}
static void peek(unsigned long long a, char *out, size_t n)
{
    size_t i = 0;
    while (i + 8 < n) {
        errno = 0;
        long w = ptrace(PTRACE_PEEKDATA, pid, (void *) (a + i), 0);
        if (errno) break;
        memcpy(out + i, &w, 8);
        if (memchr(&w, 0, 8)) return;
        i += 8;
    }
    out[i] = 0;
}
/* path below the directory, or NULL */
static char const *tracked(char const *p)
{
    if (p[0] != '/') return p[0] ? p : NULL;
    return strncmp(p, dir, dlen) == 0 && p[dlen] == '/' ? p + dlen + 1 : NULL;
}

int main(int argc, char **argv)
{
    if (argc < 6) return 120;
    if (!realpath(argv[1], dir)) return 121;
    dlen = strlen(dir);
    long n = atol(argv[2]);
    char const *mode = argv[3];
    FILE *log = fopen(argv[4], "w");
    if (!log) return 122;
    pid = fork();
    if (pid == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        execv(argv[5], argv + 5);
        _exit(127);
    }
    int st;
    if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) return 123;
    if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) return 124;
    int in = 0, sig = 0, fail = 0, fd_kind = NONE;
    long count = 0, err = 0;
    int skind = NONE; char spath[4096] = "";
    for (;;) {
        if (ptrace(PTRACE_SYSCALL, pid, 0, sig) && errno != ESRCH) return 125;
        if (waitpid(pid, &st, 0) != pid) return 126;
        sig = 0;
        if (WIFEXITED(st)) { fprintf(log, "EXIT %d\n", WEXITSTATUS(st)); break; }
        if (WIFSIGNALED(st)) { fprintf(log, "SIGNAL %d\n", WTERMSIG(st)); break; }
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { if (WSTOPSIG(st) != SIGTRAP) sig = WSTOPSIG(st); continue; }
        struct user_regs_struct r;
        ptrace(PTRACE_GETREGS, pid, 0, &r);
        if (in) {
            in = 0;
            if (fail) { r.rax = (unsigned long long) -err; ptrace(PTRACE_SETREGS, pid, 0, &r); fail = 0; }
            continue;
        }
        in = 1;
        long nr = (long) r.orig_rax;
        size_t k = 0;
        while (k < sizeof T / sizeof *T && T[k].nr != nr) ++k;
        if (k == sizeof T / sizeof *T) continue;
        char buf[4096] = "";
        char const *p = NULL;
        if (T[k].patharg >= 0) {
            peek(arg(&r, T[k].patharg), buf, sizeof buf);
            p = tracked(buf);
        }
        if (!p && T[k].fdarg >= 0) {
            char l[64];
            snprintf(l, sizeof l, "/proc/%d/fd/%d", (int) pid, (int) arg(&r, T[k].fdarg));
            ssize_t m = readlink(l, buf, sizeof buf - 1);
            if (m > 0) { buf[m] = 0; if (buf[0] == '/') p = tracked(buf); }
        }
        if (!p) continue;
        ++count;
        fprintf(log, "%ld %s %s\n", count, NAMES[T[k].kind], p);
        int hit = count == n && strcmp(mode, "count") != 0;
        if (hit && strcmp(mode, "sticky") == 0) { skind = T[k].kind; strcpy(spath, p); }
        if (skind == T[k].kind && strcmp(spath, p) == 0) hit = 1;
        if (!hit) continue;
        if (strcmp(mode, "kill") == 0) { kill(pid, SIGKILL); continue; }
        if (strcmp(mode, "short") == 0) {
            if ((nr == SYS_read || nr == SYS_write || nr == SYS_pread64 || nr == SYS_pwrite64) && r.rdx > 1) { r.rdx /= 2; ptrace(PTRACE_SETREGS, pid, 0, &r); }
            continue;
        }
        err = T[k].kind == WRITE || T[k].kind == SYNC || T[k].kind == TRUNC ? ENOSPC : T[k].kind == OPEN || T[k].kind == UNLINK ? EACCES : EIO;
        fail = 1;
        r.orig_rax = (unsigned long long) -1;
        ptrace(PTRACE_SETREGS, pid, 0, &r);
    }
    fclose(log);
    (void) fd_kind;
    return 0;
}
