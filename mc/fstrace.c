/* Runs a stopped child (after PTRACE_TRACEME + SIGSTOP) and numbers its system
 * calls which change files below a directory; injects one fault.
 * trace(pid, dir, fault, at, arg, log, loglen) -> wait status of the child
 * fault: 0 none, 1 kill before op `at`, 2 kill after it, 3 write only `arg`
 *  bytes and kill, 4 fail it with errno `arg`, 5 fail it and all later writes
 *  with errno `arg`, 6 half of the write, then as 5, 7 half of the write only,
 *  8 send signal `arg` before it
 */
#define _GNU_SOURCE
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <limits.h>

static int getstr(pid_t pid, unsigned long addr, char *buf, int n)
{
    int i = 0;
    while (i < n - 1) {
        errno = 0;
        long w = ptrace(PTRACE_PEEKDATA, pid, addr + i, 0);
        if (errno) break;
        for (int k = 0; k < 8 && i < n - 1; k++, i++) {
            buf[i] = ((char *)&w)[k];
            if (!buf[i]) return i;
        }
    }
    buf[i] = 0;
    return i;
}

static void fdpath(pid_t pid, long fd, char *buf)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/%d/fd/%ld", pid, fd);
    ssize_t k = readlink(l, buf, PATH_MAX - 1);
    buf[k < 0 ? 0 : k] = 0;
}

static void abspath(pid_t pid, unsigned long addr, char *buf)
{
    char p[PATH_MAX], c[PATH_MAX], l[64];
    getstr(pid, addr, p, sizeof p);
    if (p[0] == '/') { strcpy(buf, p); return; }
    snprintf(l, sizeof l, "/proc/%d/cwd", pid);
    ssize_t k = readlink(l, c, sizeof c - 1);
    c[k < 0 ? 0 : k] = 0;
    snprintf(buf, PATH_MAX, "%s/%.2000s", c, p);
}

int trace(int pid, const char *dir, int fault, int at, long arg, char *log, int loglen)
{
    int st, in = 0, op = 0, pending = 0, sticky = 0;
    long failwith = 0, rdx = 0;
    int fixrdx = 0;
    int killafter = 0;
    size_t dl = strlen(dir);
    char path[PATH_MAX], path2[PATH_MAX];
    int ll = 0;
    log[0] = 0;
    if (waitpid(pid, &st, 0) < 0) return -1;
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    ptrace(PTRACE_SYSCALL, pid, 0, 0);
    for (;;) {
        if (waitpid(pid, &st, 0) < 0) return -1;
        if (WIFEXITED(st) || WIFSIGNALED(st)) return st;
        int sig = WSTOPSIG(st);
        if (sig != (SIGTRAP | 0x80)) {      /* a signal for the child */
            ptrace(PTRACE_SYSCALL, pid, 0, sig == SIGSTOP || sig == SIGTRAP ? 0 : sig);
            continue;
        }
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, pid, 0, &r)) { continue; }
        in = !in;
        if (!in) {
            if (fixrdx) { r.rdx = rdx; ptrace(PTRACE_SETREGS, pid, 0, &r); fixrdx = 0; }
            if (pending) {
                if (failwith) { r.rax = -failwith; ptrace(PTRACE_SETREGS, pid, 0, &r); }
                if (killafter) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
            }
            pending = 0; failwith = 0; killafter = 0;
            ptrace(PTRACE_SYSCALL, pid, 0, 0);
            continue;
        }
        long n = r.orig_rax;
        const char *kind = NULL;
        int iswrite = 0;
        path[0] = path2[0] = 0;
        unsigned long size = 0;
        switch (n) {
        case SYS_write: case SYS_pwrite64:
            kind = "write"; iswrite = 1; size = r.rdx; fdpath(pid, r.rdi, path); break;
        case SYS_writev: case SYS_pwritev: case SYS_pwritev2:
            kind = "writev"; iswrite = 1; fdpath(pid, r.rdi, path); break;
        case SYS_sendfile: case SYS_splice: kind = "copy"; iswrite = 1; fdpath(pid, n == SYS_splice ? r.rdx : r.rdi, path); break;
        case SYS_copy_file_range: kind = "copy"; iswrite = 1; fdpath(pid, r.rdx, path); break;
        case SYS_ftruncate: kind = "truncate"; size = r.rsi; fdpath(pid, r.rdi, path); break;
        case SYS_fallocate: kind = "fallocate"; fdpath(pid, r.rdi, path); break;
        case SYS_fsync: case SYS_fdatasync: kind = "sync"; fdpath(pid, r.rdi, path); break;
        case SYS_truncate: kind = "truncate"; abspath(pid, r.rdi, path); break;
        case SYS_open: if (r.rsi & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) { kind = "open"; abspath(pid, r.rdi, path); } break;
        case SYS_openat: if (r.rdx & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) { kind = "open"; abspath(pid, r.rsi, path); } break;
        case SYS_creat: kind = "open"; abspath(pid, r.rdi, path); break;
        case SYS_rename: kind = "rename"; abspath(pid, r.rdi, path); abspath(pid, r.rsi, path2); break;
        case SYS_renameat: case SYS_renameat2: kind = "rename"; abspath(pid, r.rsi, path); abspath(pid, r.r10, path2); break;
        case SYS_link: case SYS_symlink: kind = "link"; abspath(pid, r.rsi, path); break;
        case SYS_linkat: kind = "link"; abspath(pid, r.r10, path); break;
        case SYS_symlinkat: kind = "link"; abspath(pid, r.rdx, path); break;
        case SYS_unlink: case SYS_rmdir: kind = "unlink"; abspath(pid, r.rdi, path); break;
        case SYS_unlinkat: kind = "unlink"; abspath(pid, r.rsi, path); break;
        case SYS_mkdir: kind = "mkdir"; abspath(pid, r.rdi, path); break;
        case SYS_mkdirat: kind = "mkdir"; abspath(pid, r.rsi, path); break;
        case SYS_chmod: case SYS_utime: case SYS_utimes: kind = "attr"; abspath(pid, r.rdi, path); break;
        case SYS_close: kind = "close"; fdpath(pid, r.rdi, path); break;
        }
        if (kind && (!strncmp(path, dir, dl) || !strncmp(path2, dir, dl))) {
            if (!strcmp(kind, "close")) {       /* only those open for writing */
                char l[64], b[256]; int fl = 0;
                snprintf(l, sizeof l, "/proc/%d/fdinfo/%lld", pid, (long long)r.rdi);
                int f = open(l, O_RDONLY);
                if (f >= 0) {
                    int k = read(f, b, sizeof b - 1); b[k > 0 ? k : 0] = 0; close(f);
                    char *q = strstr(b, "flags:"); if (q) fl = strtol(q + 6, 0, 8);
                }
                if (!(fl & (O_WRONLY | O_RDWR))) kind = NULL;
            }
        } else kind = NULL;
        if (kind) {
            if (ll < loglen - 300)
                ll += snprintf(log + ll, 300, "%s %lu %.120s\n", kind, size, path + (strncmp(path, dir, dl) ? 0 : dl));
            int here = (op == at);
            op++;
            if (here && fault == 1) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
            if (here && fault == 2) { pending = 1; killafter = 1; }
            if (here && fault == 3) { r.rdx = arg; ptrace(PTRACE_SETREGS, pid, 0, &r); pending = 1; killafter = 1; }
            if (here && fault == 8) kill(pid, (int)arg);
            if (here && (fault == 6 || fault == 7)) { rdx = r.rdx; fixrdx = 1; r.rdx = size / 2; ptrace(PTRACE_SETREGS, pid, 0, &r); if (fault == 6) sticky = 1; }
            else if ((here && (fault == 4 || fault == 5)) || (sticky && iswrite)) {
                failwith = arg; pending = 1;
                if (strcmp(kind, "close")) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); }
                if (fault == 5) sticky = 1;
            }
        }
        ptrace(PTRACE_SYSCALL, pid, 0, 0);
    }
}
