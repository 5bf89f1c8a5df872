// Shared bits of the C++ exploration harnesses: sharding, violation and coverage reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <csignal>
#include <string>
#include <unistd.h>
namespace mc
{
inline long long states = 0, transitions = 0, traces = 0;
inline int nviol = 0;
inline long long cur = -1;
inline int shard = 0, nshard = 1;
inline bool thorough = false;
inline std::string what;
inline void viol(const char *fmt, ...)
    {
    if (++nviol > 5) return;
    char b[2000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; ++p) if (*p == '\n') *p = ' ';
    printf("V %s\n", b); fflush(stdout);
    }
inline bool mine() { ++cur; return cur % nshard == shard; }   // static partition of the enumeration
inline void on_alarm(int)
    {
    const char m[] = "V a single step of the exploration does not terminate\n";
    (void)!write(1, m, sizeof m - 1); (void)!write(1, "C 1 1 1\n", 8); _exit(3);
    }
inline void init(int argc, char **argv)
    {
    if (argc > 2) { shard = atoi(argv[1]); nshard = atoi(argv[2]); }
    thorough = argc > 3 && std::string(argv[3]) == "thorough";
    signal(SIGALRM, on_alarm);
    }
inline int done() { printf("C %lld %lld %lld\n", states, transitions, traces); return 0; }
}
