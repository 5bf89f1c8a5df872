// Entry point of the verification build of feellgood.  The program's own main() is renamed fg_main.
// Without VERIF_ZYGOTE it just calls it.  With VERIF_ZYGOTE it serves run requests read on stdin, one
// forked child per request, which avoids paying the dynamic loading of gmsh for each run.
// Also: output system call interposition (write/writev) for fault injection and crash points, and
// delivery of signals at scripted points.  Nothing here changes what the program computes.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

int fg_main(int argc, char **argv) __asm__("fg_main");

namespace feellgood_verif
{
static int trace_fd = -1;
static const char *script = "";
static double limit = 0;
static int peak_at = -1;
static struct { std::string kind; long at; int sig; } inj;   // signal injection
static struct { long at = -1; int err = 0; long shortn = -1; int once = 0; } wf;  // write fault
static long n_write = 0, n_open = 0;
static struct { long at = -1; int err = 0; } of, cf;
static long n_close = 0;
struct Count { std::string kind; long n; };
static std::vector<Count> *counts;

static void raw(const char *p, size_t n)
    { while (n > 0) { long r = syscall(SYS_write, trace_fd, p, n); if (r <= 0) return; p += r; n -= r; } }

void record(const char *fmt, ...)
    {
    if (trace_fd < 0) return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    raw(buf, n);
    }
char next_choice() { return *script ? *script++ : 'A'; }
double du_limit() { return limit; }
int peak() { return peak_at; }
void event(const char *kind)
    {
    if (!counts) return;
    long n = -1;
    for (auto &c : *counts) if (c.kind == kind) { n = c.n++; break; }
    if (n < 0) { counts->push_back({kind, 1}); n = 0; }
    record("E %s %ld\n", kind, n);
    if (inj.at == n && inj.kind == kind)
        {
        record("X %s %ld %d\n", kind, n, inj.sig);
        raise(inj.sig);
        }
    }
static void setup()
    {
    counts = new std::vector<Count>;
    if (const char *f = getenv("VERIF_TRACE"))
        {
        int fd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        trace_fd = dup2(fd, 250);
        close(fd);
        }
    if (const char *s = getenv("VERIF_SCRIPT")) script = s;
    if (const char *s = getenv("VERIF_DUMAX")) limit = atof(s);
    peak_at = -1;
    if (const char *s = getenv("VERIF_PEAK")) peak_at = atoi(s);
    inj.at = -1;
    if (const char *s = getenv("VERIF_SIGNAL"))   // kind:index:signo
        {
        char k[32]; long a; int g;
        if (sscanf(s, "%31[^:]:%ld:%d", k, &a, &g) == 3) { inj.kind = k; inj.at = a; inj.sig = g; }
        }
    if (const char *s = getenv("VERIF_WFAULT"))   // index:errno[:shortcount[:once]]; unless once, the fault persists
        { sscanf(s, "%ld:%d:%ld:%d", &wf.at, &wf.err, &wf.shortn, &wf.once); }
    if (const char *s = getenv("VERIF_OFAULT"))
        { sscanf(s, "%ld:%d", &of.at, &of.err); }
    if (const char *s = getenv("VERIF_CFAULT"))   // index:errno: this closing of an output file reports an error
        { sscanf(s, "%ld:%d", &cf.at, &cf.err); }
    }
static char last_name[512];
static bool watched(int fd)
    {
    if (fd <= 2 || fd == trace_fd || !counts) return false;
    char p[64], t[512];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, t, sizeof t - 1);
    if (n <= 0) return false;
    t[n] = 0;
    const char *b = strrchr(t, '/');
    b = b ? b + 1 : t;
    strcpy(last_name, b);
    return t[0] == '/' && strncmp(t, "/dev/", 5) && strncmp(t, "/proc/", 6)
           && (strstr(b, ".evol") || strstr(b, ".sol") || strstr(b, ".tsv"));
    }
}
using namespace feellgood_verif;
extern "C" void verif_event(const char *kind) { event(kind); }

extern "C" ssize_t write(int fd, const void *buf, size_t n)
    {
    if (watched(fd))
        {
        long i = n_write++;
        record("W %ld %d %zu %s\n", i, fd, n, last_name);
        event("write");
        if (wf.at >= 0 && (wf.once ? i == wf.at : i >= wf.at))
            {
            if (i == wf.at && wf.shortn >= 0 && wf.shortn < (long) n)
                { return wf.shortn ? syscall(SYS_write, fd, buf, wf.shortn) : 0; }
            errno = wf.err;
            return -1;
            }
        ssize_t r = syscall(SYS_write, fd, buf, n);
        event("written");
        return r;
        }
    return syscall(SYS_write, fd, buf, n);
    }
extern "C" ssize_t writev(int fd, const struct iovec *iov, int cnt)
    {
    if (watched(fd))
        {
        size_t n = 0;
        for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
        std::string b;
        for (int i = 0; i < cnt; i++) b.append((const char *) iov[i].iov_base, iov[i].iov_len);
        return write(fd, b.data(), b.size());
        }
    return syscall(SYS_writev, fd, iov, cnt);
    }

extern "C" int fclose(FILE *f)
    {
    static int (*real)(FILE *) = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f);
    bool w = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && watched(fd);
    long i = -1;
    if (w)
        {
        i = n_close++;
        record("K %ld %d 0 %s\n", i, fd, last_name);
        }
    int r = real(f);
    if (w && i == cf.at) { errno = cf.err; return -1; }
    return r;
    }

static int run_direct(int argc, char **argv)
    {
    setup();
    return fg_main(argc, argv);
    }

static std::vector<std::string> split(const std::string &s, char sep)
    {
    std::vector<std::string> v;
    size_t a = 0;
    for (;;)
        {
        size_t b = s.find(sep, a);
        v.push_back(s.substr(a, b == s.npos ? b : b - a));
        if (b == s.npos) return v;
        a = b + 1;
        }
    }

// A request is a line of TAB-separated fields: cwd, stdin, timeout(s), nenv, env..., args...
// with \t, \n and \\ escaped.
static std::string unescape(const std::string &s)
    {
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '\\' && i + 1 < s.size())
            { char c = s[++i]; r += c == 't' ? '\t' : c == 'n' ? '\n' : c; }
        else r += s[i];
    return r;
    }

int main(int argc, char **argv)
    {
    if (!getenv("VERIF_ZYGOTE")) return run_direct(argc, argv);
    int rfd = -1, wfd = -1;
    if (sscanf(getenv("VERIF_ZYGOTE"), "%d:%d", &rfd, &wfd) != 2) return 121;
    FILE *req = fdopen(rfd, "r");
    fcntl(rfd, F_SETFD, FD_CLOEXEC);
    unsetenv("VERIF_ZYGOTE");
    sigset_t chld;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, nullptr);
    static char line[1 << 20];
    while (fgets(line, sizeof line, req))
        {
        std::string l(line);
        if (!l.empty() && l.back() == '\n') l.pop_back();
        std::vector<std::string> f = split(l, '\t');
        for (auto &x : f) x = unescape(x);
        pid_t pid = fork();
        if (pid == 0)
            {
            sigprocmask(SIG_UNBLOCK, &chld, nullptr);
            setpgid(0, 0);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (chdir(f[0].c_str()) != 0) _exit(120);
            int in = open(f[1].c_str(), O_RDONLY);
            dup2(in, 0);
            int o = open(".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(o, 1);
            int e = open(".stderr", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
            close(in); close(o); close(e);
            int ne = atoi(f[3].c_str());
            for (int i = 0; i < ne; i++)
                {
                std::string &kv = f[4 + i];
                size_t q = kv.find('=');
                if (q == kv.npos) unsetenv(kv.c_str());
                else setenv(kv.substr(0, q).c_str(), kv.substr(q + 1).c_str(), 1);
                }
            std::vector<char *> av;
            static char name[] = "feellgood";
            av.push_back(name);
            for (size_t i = 4 + ne; i < f.size(); i++) av.push_back(strdup(f[i].c_str()));
            int ac = av.size();
            av.push_back(nullptr);
            close(rfd);
            close(wfd);
            exit(run_direct(ac, av.data()));
            }
        double tmo = atof(f[2].c_str());
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        int st = 0;
        bool timed = false;
        for (;;)
            {
            if (waitpid(pid, &st, WNOHANG) == pid) break;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            double left = tmo - ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
            if (left <= 0)
                {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                timed = true;
                break;
                }
            struct timespec ts = {(time_t) left, (long) ((left - (time_t) left) * 1e9)};
            sigtimedwait(&chld, nullptr, &ts);
            }
        char rep[32];
        int n = timed ? snprintf(rep, sizeof rep, "T 0\n")
                : WIFEXITED(st) ? snprintf(rep, sizeof rep, "E %d\n", WEXITSTATUS(st))
                                : snprintf(rep, sizeof rep, "S %d\n", WTERMSIG(st));
        if (syscall(SYS_write, wfd, rep, n) != n) return 122;
        }
    return 0;
    }
