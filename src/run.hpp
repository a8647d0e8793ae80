// Runs the real msolve (linked in as msolve_main) once per case in a forked
// child, with every source of nondeterminism (rand, time, thread count) owned
// by the explorer.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

extern "C" int msolve_main(int argc, char **argv);

// ------------------------------------------------------------ owned randomness
// rand() answers: the script first, then a fixed linear congruential stream.
struct RandCtl {
    std::vector<int> script;
    size_t pos = 0;
    uint64_t state = 88172645463325252ull;
    uint64_t calls = 0;
    bool constant = false;
    int cval = 0;
    std::map<uint64_t, int> dev;   // deviations: answer to the i-th call
    std::vector<int> low; uint64_t lown = 0; // low bytes of the first lown answers, periodically
    std::vector<long> clk; uint64_t ticks = 0; // clock: periodic increments in microseconds (empty: the real clock)
    uint64_t *count = NULL;   // shared with the explorer: answers given so far
};
extern RandCtl g_rand;

extern "C" void __asan_init(void) __attribute__((weak)); // instrumented builds reserve more address space than any limit
namespace run {

inline double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Result {
    int code = 0;          // exit code, or 1000+signal, or -1 for timeout
    bool timeout = false;
    std::string out, err;
    uint64_t rands = 0;    // how many answers of the random number generator were used
    std::string how() const {
        if (timeout) return "no answer within the time limit";
        if (code >= 1000) return "killed by signal " + std::to_string(code - 1000);
        return "exit code " + std::to_string(code);
    }
};

struct Opts {
    double timeout = 20;
    std::vector<int> rscript;
    uint64_t rseed = 1;
    bool rconst = false; int rcval = 0;
    std::map<uint64_t, int> rdev; std::vector<int> rlow; uint64_t rlown = 0;
    std::vector<long> clk;
    size_t mem = 6ull << 30;
    int outcap = 64 << 20;
    bool ofile = false;    // use -o and take the answer from that file
};

inline std::string slurp_fd(int fd, size_t cap) {
    std::string s;
    off_t n = lseek(fd, 0, SEEK_END);
    if (n < 0) n = 0;
    if ((size_t)n > cap) n = cap;
    s.resize(n);
    off_t got = 0;
    while (got < n) {
        ssize_t r = pread(fd, &s[got], n - got, got);
        if (r <= 0) break;
        got += r;
    }
    s.resize(got);
    return s;
}

struct Fds {
    int in, out, err, of;
    Fds() {
        in = memfd_create("in", 0);
        out = memfd_create("out", 0);
        err = memfd_create("err", 0);
        of = memfd_create("of", 0);
    }
};
inline uint64_t *rand_page() { // one per process that runs cases
    static uint64_t *p = NULL; static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); p = (uint64_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    return p;
}
inline Fds &fds() { static Fds f; return f; }

// run an arbitrary function in a child; its stdout/stderr are captured.
inline Result in_child(const std::function<int()> &fn, const Opts &o) {
    Fds &f = fds();
    if (ftruncate(f.out, 0) || ftruncate(f.err, 0)) {}
    lseek(f.out, 0, SEEK_SET);
    lseek(f.err, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    sigset_t ss, old;
    sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    sigprocmask(SIG_BLOCK, &ss, &old);
    uint64_t *page = rand_page();
    page[0] = page[1] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        sigprocmask(SIG_SETMASK, &old, NULL);
        dup2(f.out, 1);
        dup2(f.err, 2);
        if (o.mem && !&__asan_init) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = o.mem; setrlimit(RLIMIT_AS, &rl); }
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = o.outcap; setrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        g_rand = RandCtl();
        g_rand.script = o.rscript;
        g_rand.state = o.rseed * 6364136223846793005ull + 1442695040888963407ull;
        g_rand.count = page; g_rand.dev = o.rdev; g_rand.low = o.rlow; g_rand.lown = o.rlown; g_rand.clk = o.clk;
        g_rand.constant = o.rconst; g_rand.cval = o.rcval;
        int rc = fn();
        fflush(stdout); fflush(stderr);
        _exit(rc);
    }
    Result r;
    double t0 = now();
    int st = 0;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        double left = o.timeout - (now() - t0);
        if (left <= 0) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.timeout = true;
            break;
        }
        struct timespec ts; ts.tv_sec = (time_t)left; ts.tv_nsec = (long)((left - ts.tv_sec) * 1e9);
        sigtimedwait(&ss, NULL, &ts);
    }
    sigprocmask(SIG_SETMASK, &old, NULL);
    if (r.timeout) r.code = -1;
    else if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
    else r.code = 1000 + WTERMSIG(st);
    r.rands = page[0];
    r.out = slurp_fd(f.out, o.outcap);
    r.err = slurp_fd(f.err, 1 << 20);
    return r;
}

// one msolve run: args without -f, the input text goes to an anonymous file
inline Result msolve(const std::vector<std::string> &args, const std::string &input, const Opts &o = Opts()) {
    Fds &f = fds();
    if (ftruncate(f.in, 0)) {}
    size_t done = 0;
    while (done < input.size()) {
        ssize_t w = pwrite(f.in, input.data() + done, input.size() - done, done);
        if (w <= 0) break;
        done += w;
    }
    if (o.ofile && ftruncate(f.of, 0)) {}
    Result res = in_child([&]() -> int {
        std::vector<std::string> av;
        av.push_back("msolve");
        for (auto &a : args) av.push_back(a);
        av.push_back("-f");
        av.push_back("/proc/self/fd/" + std::to_string(f.in));
        if (o.ofile) { av.push_back("-o"); av.push_back("/proc/self/fd/" + std::to_string(f.of)); }
        std::vector<char *> argv;
        for (auto &a : av) argv.push_back(strdup(a.c_str()));
        argv.push_back(NULL);
        return msolve_main((int)av.size(), argv.data());
    }, o);
    if (o.ofile) { res.err = res.out + res.err; res.out = slurp_fd(f.of, o.outcap); }
    return res;
}

inline std::string join(const std::vector<std::string> &v, const std::string &s = " ") {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += s; r += v[i]; }
    return r;
}

// ------------------------------------------------------------------ explorer
struct Finding {
    std::string key;     // identifies the exact failing case
    std::string what;    // one line
    std::string detail;  // replay file contents
};

// A check explores `n` cases; fn(i) runs in one of W worker processes, and
// reports through the Ctx.
struct Ctx {
    uint64_t transitions = 0;   // executions of the implementation
    uint64_t validated = 0;     // executions whose full observable result was compared with the model
    uint64_t modelsteps = 0;
    std::set<uint64_t> states;      // distinct model states (canonical results)
    std::set<uint64_t> nontriv;     // distinct non-trivial cases
    std::map<std::string, uint64_t> cnt;
    std::vector<std::string> samples;
    std::vector<Finding> bad;
    std::string last;
    double deadline = 0;
    bool late() const { return deadline > 0 && now() > deadline; }
};

inline uint64_t h64(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h;
}

inline void put(std::string &b, const std::string &s) { uint64_t n = s.size(); b.append((char *)&n, 8); b += s; }
inline void put(std::string &b, uint64_t v) { b.append((char *)&v, 8); }
struct Rd {
    const std::string &b; size_t p = 0;
    uint64_t u() { uint64_t v; memcpy(&v, b.data() + p, 8); p += 8; return v; }
    std::string s() { uint64_t n = u(); std::string r = b.substr(p, n); p += n; return r; }
};

struct Shared { std::atomic<uint64_t> next; std::atomic<uint64_t> nbad; std::atomic<uint64_t> done; };

struct Check {
    std::string id, tier, level = "model_checking", rule;
    std::vector<std::string> assumptions;
    uint64_t seed = 1;
    double t0 = now();
    double budget = 700;
    int workers = 8;
    double slow = getenv("VERIF_SLOW") ? atof(getenv("VERIF_SLOW")) : 0;
    bool exhaustive = true;
    Ctx all;
    std::map<std::string, std::string> extra; // raw JSON values
    std::set<std::string> known;              // keys of known findings
    std::map<std::string, std::string> knowntext;

    Check(const std::string &id_) : id(id_) {
        const char *t = getenv("VERIF_TIER");
        tier = t && std::string(t) == "thorough" ? "thorough" : "quick";
        const char *s = getenv("VERIF_SEED");
        if (s) seed = strtoull(s, NULL, 10);
        if (thorough()) budget = 6 * 3600;
        const char *b = getenv("VERIF_BUDGET");
        if (b) budget = atof(b);
        const char *w = getenv("VERIF_WORKERS");
        workers = w ? atoi(w) : (int)sysconf(_SC_NPROCESSORS_ONLN);
        if (workers < 1) workers = 1;
        if (workers > 16) workers = 16;
        setenv("OMP_DYNAMIC", "false", 1);
        loadknown();
    }
    bool thorough() const { return tier == "thorough"; }
    void loadknown() {
        std::ifstream f("/verif/known_findings.txt");
        std::string l;
        while (std::getline(f, l)) {
            // known: property=C05 key=<key> ## text
            std::string pre = "known: property=" + id + " key=";
            if (l.compare(0, pre.size(), pre) == 0) {
                size_t q = l.find(" ## ");
                std::string k = l.substr(pre.size(), q == std::string::npos ? std::string::npos : q - pre.size());
                known.insert(k);
                knowntext[k] = q == std::string::npos ? "" : l.substr(q + 4);
            }
        }
    }
    // explore n cases; returns whether all were executed
    void explore(uint64_t n, const std::function<void(uint64_t, Ctx &)> &fn, uint64_t maxbad = 5) {
        if (getenv("VERIF_MAXBAD")) maxbad = strtoull(getenv("VERIF_MAXBAD"), NULL, 10);
        Shared *sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (sh) Shared();
        sh->next = 0; sh->nbad = 0; sh->done = 0;
        std::vector<int> rfd; std::vector<pid_t> pids;
        fflush(stdout);
        double deadline = t0 + budget;
        int W = (int)std::min<uint64_t>(workers, n ? n : 1);
        for (int w = 0; w < W; ++w) {
            int mf = memfd_create("res", 0);
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                // fresh descriptors for this worker
                fds() = Fds();
                Ctx c; c.deadline = deadline;
                for (;;) {
                    if (sh->nbad >= maxbad || now() > deadline) break;
                    uint64_t i = sh->next++;
                    if (i >= n) break;
                    size_t b0 = c.bad.size();
                    double tc = now();
                    fn(i, c);
                    if (slow > 0 && now() - tc > slow) fprintf(stderr, "slow case %llu: %.1f s %s\n", (unsigned long long)i, now() - tc, c.last.c_str());
                    for (size_t k = b0; k < c.bad.size(); ++k) if (!known.count(c.bad[k].key)) sh->nbad++;
                    sh->done++;
                }
                std::string b;
                put(b, c.transitions); put(b, c.validated); put(b, c.modelsteps);
                put(b, c.states.size()); for (auto v : c.states) put(b, v);
                put(b, c.nontriv.size()); for (auto v : c.nontriv) put(b, v);
                put(b, c.cnt.size()); for (auto &v : c.cnt) { put(b, v.first); put(b, v.second); }
                put(b, c.samples.size()); for (auto &v : c.samples) put(b, v);
                put(b, c.bad.size()); for (auto &v : c.bad) { put(b, v.key); put(b, v.what); put(b, v.detail); }
                size_t d = 0;
                while (d < b.size()) { ssize_t k = write(mf, b.data() + d, b.size() - d); if (k <= 0) _exit(9); d += k; }
                _exit(0);
            }
            rfd.push_back(mf); pids.push_back(pid);
        }
        for (int w = 0; w < W; ++w) {
            int st; waitpid(pids[w], &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "explorer worker died (status %d)\n", st); exit(3); }
            std::string b = slurp_fd(rfd[w], 1ull << 31);
            close(rfd[w]);
            Rd r{b};
            all.transitions += r.u(); all.validated += r.u(); all.modelsteps += r.u();
            uint64_t k = r.u(); while (k--) all.states.insert(r.u());
            k = r.u(); while (k--) all.nontriv.insert(r.u());
            k = r.u(); while (k--) { std::string a = r.s(); all.cnt[a] += r.u(); }
            k = r.u(); while (k--) { std::string a = r.s(); if (all.samples.size() < 12) all.samples.push_back(a); }
            k = r.u(); while (k--) { Finding f; f.key = r.s(); f.what = r.s(); f.detail = r.s(); all.bad.push_back(f); }
        }
        if (sh->done < n) {
            bool anybad = false;
            for (auto &f : all.bad) if (!known.count(f.key)) anybad = true;
            exhaustive = false;
            all.cnt["cases_not_reached"] += n - sh->done;
            if (!anybad) fprintf(stderr, "note: %llu of %llu cases not reached within the budget\n", (unsigned long long)(n - sh->done), (unsigned long long)n);
        }
        munmap(sh, sizeof(Shared));
    }
    bool stop() const { for (auto &f : all.bad) if (!known.count(f.key)) return true; return false; }
    static std::string js(const std::string &s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    int finish() {
        std::sort(all.bad.begin(), all.bad.end(), [](const Finding &a, const Finding &b) { return a.key < b.key; });
        std::vector<Finding> nb; std::set<std::string> seenknown;
        for (auto &f : all.bad) { if (known.count(f.key)) seenknown.insert(f.key); else nb.push_back(f); }
        mkdir("/verif/evidence", 0777);
        std::ostringstream o;
        o << "{\"property\":" << js(id) << ",\"tier\":" << js(tier) << ",\"seed\":" << seed << ",\"level\":" << js(level) << ",\"coverage\":{";
        o << "\"states\":" << all.states.size() << ",\"transitions\":" << all.transitions << ",\"traces_validated_against_impl\":" << all.validated;
        o << ",\"evaluations\":" << all.transitions << ",\"distinct_nontrivial\":" << all.nontriv.size() << ",\"rule\":" << js(rule);
        o << ",\"model_steps\":" << all.modelsteps << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"samples\":[";
        for (size_t i = 0; i < all.samples.size(); ++i) o << (i ? "," : "") << js(all.samples[i]);
        o << "],\"counters\":{";
        bool first = true;
        for (auto &v : all.cnt) { o << (first ? "" : ",") << js(v.first) << ":" << v.second; first = false; }
        o << "}";
        for (auto &v : extra) o << "," << js(v.first) << ":" << v.second;
        o << "},\"assumptions\":[";
        for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? "," : "") << js(assumptions[i]);
        char w[64]; snprintf(w, sizeof w, "%.2f", now() - t0);
        o << "],\"wall_s\":" << w << ",\"violations\":" << nb.size() << "}\n";
        std::ofstream(("/verif/evidence/" + id + ".json").c_str()) << o.str();
        printf("%s %s: %llu implementation runs, %llu validated against the model, %llu distinct model states, %llu distinct non-trivial cases, %.1f s%s\n", id.c_str(), tier.c_str(),
               (unsigned long long)all.transitions, (unsigned long long)all.validated, (unsigned long long)all.states.size(), (unsigned long long)all.nontriv.size(), now() - t0, exhaustive ? ", exhaustive within the stated bounds" : ", not exhaustive");
        for (auto &v : all.cnt) printf("  %s: %llu\n", v.first.c_str(), (unsigned long long)v.second);
        for (auto &k : known)
            if (seenknown.count(k)) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), (knowntext[k].empty() ? k : knowntext[k]).c_str());
        if (nb.empty()) { fflush(stdout); return 0; }
        mkdir("/verif/replays", 0777);
        int k = 0;
        for (auto &f : nb) {
            std::string path = "/verif/replays/" + id + "-" + std::to_string(k++) + ".txt";
            std::ofstream(path.c_str()) << "property " << id << "\nkey " << f.key << "\n" << f.what << "\n\n" << f.detail << "\n";
            printf("%s\n", f.what.c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
            if (k >= 5 && !getenv("VERIF_MAXBAD")) break;
        }
        fflush(stdout);
        return 1;
    }
};

inline std::string oneline(const std::string &s, size_t cap = 400) {
    std::string r;
    for (char c : s) r += c == '\n' ? '|' : c;
    if (r.size() > cap) r = r.substr(0, cap) + "...";
    return r;
}

// judge(): runs a case; if the oracle (ok) says no, re-runs it alone with a
// longer limit to separate machine load from a real failure, and only then
// reports.  ok returns "" when the property holds on the result.
inline bool judge(Ctx &c, const std::vector<std::string> &args, const std::string &input, const Opts &o,
                  const std::function<std::string(const Result &)> &ok, const std::string &keyextra = "", Result *res = NULL,
                  const std::function<std::string(const Result &)> &classify = nullptr) {
    Result r = msolve(args, input, o);
    c.transitions++;
    std::string e = ok(r);
    if (!e.empty()) {
        Opts o2 = o;
        o2.timeout = r.timeout ? std::max(60.0, 4 * o.timeout) : o.timeout * 2;
        if (r.code == 1000 + SIGKILL || (r.code != 0 && r.code != 1)) usleep(200000);
        Result r2 = msolve(args, input, o2);
        c.transitions++;
        std::string e2 = ok(r2);
        if (e2.empty()) {
            // only machine load (timeout / memory) may differ between two runs
            // of a deterministic program
            c.cnt["reruns_after_timeout"]++;
            if (!r.timeout && r.code < 1000) e2 = "not reproducible: " + e; else { if (res) *res = r2; c.validated++; return true; }
        }
        Finding f;
        f.key = oneline(join(args) + " :: " + input, 2000) + (keyextra.empty() ? "" : " :: " + keyextra);
        // a failure the model can attribute exactly to a recorded defect carries
        // the name of that defect as its key
        if (classify) { std::string k = classify(r2); if (!k.empty()) { f.key = k; c.cnt["failures of class " + k]++; } }
        f.what = e2 + " [msolve " + join(args) + " on " + oneline(input) + "]";
        f.detail = "command: msolve " + join(args) + " -f INPUT\n" + (keyextra.empty() ? "" : "environment: " + keyextra + "\n") + "--- INPUT\n" + input + "\n--- violation\n" + e2 + "\n--- " + r2.how() + "\n--- stdout\n" + r2.out + "\n--- stderr\n" + r2.err;
        c.bad.push_back(f);
        if (res) *res = r2;
        return false;
    }
    c.validated++;
    if (res) *res = r;
    return true;
}

} // namespace run
