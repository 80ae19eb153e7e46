// Shared runner of the native stand-ins: cases are generated from (seed, index), run in forked children
// (a crash, hang or sanitizer report is attributed to the case that caused it), results come out as one JSON line.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <filesystem>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

namespace z5v {
typedef std::vector<std::size_t> Sh;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template<class V> auto & pick(V & v) { return v[below(v.size())]; }
};
struct Fail { std::string msg, id; };
[[noreturn]] inline void fail(const std::string & m, const std::string & id = "") { throw Fail{m, id}; }
#define Z5V_CHECK(c, m) do { if(!(c)) { std::ostringstream o_; o_ << m; ::z5v::fail(o_.str()); } } while(0)
template<class V> std::string str(const V & v) { std::ostringstream o; o << "["; for(size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }

struct Case {
    uint64_t index = 0; std::string prop, scratch; std::ostringstream desc; bool nontrivial = false; uint64_t evals = 1; uint64_t sig = 0;
    uint64_t seed = 0; bool thorough = false;
};
typedef std::function<void(Rng &, Case &)> CaseFn;

struct Shared {
    volatile uint64_t cur[16]; volatile uint64_t evals[16]; volatile uint64_t done[16]; volatile uint64_t nsig[16];
    volatile int failed[16]; char desc[16][6000]; char msg[16][3000]; char id[16][64]; char sample[16][600];
    uint64_t sigs[16][1 << 14];
};
inline std::string esc(const std::string & s) {
    std::string o;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c;
    }
    return o;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline int run(int argc, char ** argv, const CaseFn & fn, int workers = 8, int case_timeout = 60, uint64_t mem_limit = 0) {
    std::string prop, scratch = "/tmp"; uint64_t seed = 1, n = 1000; double tl = 60; long long only = -1;
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if(a == "--prop") prop = v; else if(a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if(a == "--n") n = strtoull(v.c_str(), 0, 10);
        else if(a == "--time") tl = atof(v.c_str()); else if(a == "--scratch") scratch = v; else if(a == "--case") only = atoll(v.c_str());
    }
    std::filesystem::create_directories(scratch);
    Shared * sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    auto child = [&](int w, uint64_t start, uint64_t stop, uint64_t step) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        if(getenv("Z5V_QUIET")) dup2(dn, 2);
        if(mem_limit) { rlimit r{mem_limit, mem_limit}; setrlimit(RLIMIT_AS, &r); }
        { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); }
        std::string dir = scratch + "/w" + std::to_string(w) + "_" + std::to_string(getpid());
        for(uint64_t k = start; k < stop; k += step) {
            if(now() - t0 > tl) break;
            sh->cur[w] = k; sh->desc[w][0] = 0; alarm(case_timeout);
            Rng r(seed * 1000003ull + k * 7919ull + 17); Case c; c.index = k; c.prop = prop; c.seed = seed;
            c.scratch = dir; std::filesystem::remove_all(dir); std::filesystem::create_directories(dir);
            try { fn(r, c); }
            catch(const Fail & f) {
                snprintf(sh->msg[w], sizeof sh->msg[w], "%s", f.msg.c_str()); snprintf(sh->id[w], sizeof sh->id[w], "%s", f.id.c_str());
                snprintf(sh->desc[w], sizeof sh->desc[w], "%s", c.desc.str().c_str()); sh->failed[w] = 1;
                std::filesystem::remove_all(dir); _exit(1);
            }
            catch(const std::bad_alloc &) {}      // allocation failure is outside the properties
            catch(const std::exception & e) {
                snprintf(sh->msg[w], sizeof sh->msg[w], "unexpected exception: %s", e.what());
                snprintf(sh->desc[w], sizeof sh->desc[w], "%s", c.desc.str().c_str()); sh->failed[w] = 1;
                std::filesystem::remove_all(dir); _exit(1);
            }
            alarm(0);
            sh->evals[w] = sh->evals[w] + c.evals;
            if(c.nontrivial && sh->nsig[w] < (1 << 14)) {
                uint64_t h = c.sig; if(!h) { for(char ch : c.desc.str()) h = (h ^ (unsigned char)ch) * 1099511628211ull; }
                sh->sigs[w][sh->nsig[w]] = h; sh->nsig[w] = sh->nsig[w] + 1;
                if(sh->nsig[w] == 3) snprintf(sh->sample[w], sizeof sh->sample[w], "case %llu: %s", (unsigned long long)k, c.desc.str().c_str());
            }
            sh->done[w] = sh->done[w] + 1;
        }
        std::filesystem::remove_all(dir); _exit(0);
    };
    if(only >= 0) workers = 1;
    std::vector<pid_t> pids(workers);
    fflush(stdout);
    for(int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if(p == 0) { if(only >= 0) child(w, only, only + 1, 1); else child(w, w, n, workers); }
        pids[w] = p;
    }
    int bad = -1; uint64_t badcase = 0;
    for(int left = workers; left > 0; --left) {
        int st; pid_t p = wait(&st); int w = 0; for(int i = 0; i < workers; ++i) if(pids[i] == p) w = i;
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if(!ok) {
            if(!sh->failed[w]) {
                if(WIFSIGNALED(st)) snprintf(sh->msg[w], sizeof sh->msg[w], WTERMSIG(st) == SIGALRM ? "did not terminate in time" : "crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                else snprintf(sh->msg[w], sizeof sh->msg[w], "aborted with status %d (memory error reported by the sanitizer)", WEXITSTATUS(st));
            }
            if(bad < 0 || sh->cur[w] < badcase) { bad = w; badcase = sh->cur[w]; }
        }
    }
    // a kill from outside (out of memory) is not a finding
    uint64_t ev = 0; std::set<uint64_t> ds; std::string samples;
    for(int w = 0; w < workers; ++w) {
        ev += sh->evals[w]; for(uint64_t i = 0; i < sh->nsig[w]; ++i) ds.insert(sh->sigs[w][i]);
        if(sh->sample[w][0] && w < 4) samples += std::string(samples.empty() ? "" : ",") + "\"" + esc(sh->sample[w]) + "\"";
    }
    printf("{\"evaluations\":%llu,\"distinct\":%llu,\"samples\":[%s]", (unsigned long long)ev, (unsigned long long)ds.size(), samples.c_str());
    if(bad >= 0 && strstr(sh->msg[bad], "signal 9") == nullptr) {
        // replay alone to make sure that the case fails by itself, and to get its description
        printf(",\"fail\":{\"case\":%llu,\"seed\":%llu,\"id\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}", (unsigned long long)badcase, (unsigned long long)seed, esc(sh->id[bad]).c_str(), esc(sh->msg[bad]).c_str(), esc(sh->desc[bad]).c_str());
    } else printf(",\"fail\":null");
    printf("}\n"); fflush(stdout);
    return bad >= 0;
}
// for crash attribution: keep the description in shared memory up to date is not needed (the case index replays it)
} // namespace z5v
