// Shared by the replay harnesses: the failing input is always reported, also
// when the code under test crashes, trips a sanitizer or does not return.
#ifndef HCOMMON_HPP
#define HCOMMON_HPP
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <set>
#include <string>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace h {
static char cur_input[8192];
static long evaluations = 0, nontrivial = 0, nsamples = 0;
static std::string mode, tier;
static unsigned long long rng_state = 1;
static double t_end = 0;

static double now() { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec + tv.tv_usec / 1e6; }

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    }
    return o;
}

static void wr(const char *s) { ssize_t r = write(1, s, strlen(s)); (void) r; }

static void death() { wr("\nFAIL crash input: "); wr(cur_input); wr("\n"); }
static void on_alarm(int) { wr("\nFAIL hang (no return within the time limit) input: "); wr(cur_input); wr("\n"); _exit(1); }
static void on_sig(int s) { wr(s == SIGABRT ? "\nFAIL abort input: " : "\nFAIL signal input: "); wr(cur_input); wr("\n"); _exit(1); }

static void init(int argc, char **argv)
{
    mode = argc > 1 ? argv[1] : "all";
    tier = argc > 2 ? argv[2] : "quick";
    rng_state = 88172645463325252ULL ^ (argc > 3 ? strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ULL : 1);
    double secs = argc > 4 ? atof(argv[4]) : 20;
    t_end = now() + secs;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_sig);
    if (!__sanitizer_set_death_callback) { signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); }
}
static bool thorough() { return tier == "thorough"; }
static bool time_left() { return now() < t_end; }
static unsigned long long rnd()
{
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return rng_state;
}
static unsigned rnd(unsigned n) { return n ? rnd() % n : 0; }

// announce the input about to be given to the code
static void input(const std::string &s, bool nontriv = true, unsigned limit_s = 5)
{
    std::string e = esc(s);
    snprintf(cur_input, sizeof cur_input, "%s", e.c_str());
    evaluations++;
    if (nontriv)
    {
        nontrivial++;
        if (nsamples < 3 && evaluations % 97 == 0) { printf("SAMPLE %s\n", cur_input); nsamples++; }
    }
    static time_t last = 0;
    (void) last;
    alarm(limit_s);
}
[[noreturn]] static void fail(const std::string &msg)
{
    printf("\nFAIL %s input: %s\n", msg.c_str(), cur_input);
    fflush(stdout);
    _exit(1);
}
static void check(bool ok, const std::string &msg) { if (!ok) fail(msg); }
static int done()
{
    alarm(0);
    printf("STATS evaluations=%ld nontrivial=%ld\n", evaluations, nontrivial);
    fflush(stdout);
    _exit(0);
}
}
#endif
