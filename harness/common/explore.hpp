// Stateless exhaustive explorer for deterministic C++ code.
//
// A scenario is a body that runs ONE execution against fresh objects of the real code and asks the
// explorer for every free choice (event, value, schedule, random draw).  The explorer enumerates the
// complete tree of choices depth first; dev() choices are departures from a default and are limited to
// the scenario's deviation bound, choose() choices are unlimited.  Every execution is judged by check().
//
// Work is shared by worker processes, which claim subtrees (numbered in depth-first order at a split
// depth) from shared memory.  A failing, crashing or hanging execution is replayed alone in a fresh
// process before it is reported (and, if it needs the executions before it, with those before it).
#pragma once
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

using u64 = std::uint64_t;

inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline u64 bits(double d) { u64 u; if (d == 0) d = 0; std::memcpy(&u, &d, 8); return u; }
inline u64 hashStr(const std::string &s) { u64 h = 14695981039346656037ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// value hash with a coarse grid, so that rounding noise does not create artificial states
inline u64 grid(double d, double step = 1e-3) { return std::isfinite(d) ? static_cast<u64>(static_cast<long long>(std::llround(d / step))) : 0x7ff8dead; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f); std::vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Failure { std::string sig, msg; };
struct NotMine {};
struct Stop {};

constexpr int MAXTRACE = 512;
constexpr int MAXCLAIM = 1 << 20;
constexpr int MAXSCEN = 64;

struct WorkerShm {
    volatile double beat;              // start of the current execution, 0 when idle
    volatile int scen;
    volatile int len;
    volatile int trace[MAXTRACE];
    volatile int arity[MAXTRACE];
    volatile int done;                 // finished all scenarios
    volatile int failed;               // found something to report (sig/msg filled in)
    volatile int failScen, failLen, failTrace[MAXTRACE];
    char sig[256];
    char msg[4096];
};
struct Shm {
    volatile int stop;
    volatile int capped;               // 1: deadline reached somewhere
    volatile int doneScen[MAXSCEN];
    WorkerShm w[64];
    unsigned char claim[MAXSCEN][MAXCLAIM];   // 0 free, worker+1
};

class Ctx {
public:
    // ---- choices
    int choose(int n, const char *label = "") { return pick(n, label); }
    bool flip(const char *label = "") { return pick(2, label) == 1; }
    // departure from the default answer 0
    int dev(int n, const char *label = "") {
        if (devUsed >= devBound || n <= 1) return 0;
        int c = pick(n, label);
        if (c) ++devUsed;
        return c;
    }
    int devLeft() const { return devBound - devUsed; }
    // ---- observation
    void note(const std::string &s) {
        if (!recording) return;
        if (sink) { *sink << "note " << s << std::endl; return; }
        notes.push_back(s);
    }
    void step(u64 n = 1) { transitions += n; }
    void state(u64 h) { states.insert(h); }
    void outcome(u64 h) { outcomes.insert(h); }
    void compared(u64 n = 1) { comparisons += n; }
    void check(bool ok, const std::string &sig, const std::string &msg) {
        ++checks;
        if (!ok) throw Failure{sig, msg};
    }
    bool recording = false;
    std::ostream *sink = nullptr;      // replay: notes go out at once, so that a crash keeps them

    // ---- engine
    std::vector<int> trace, arity;
    std::vector<std::string> notes;
    size_t pos = 0;
    int devBound = 0, devUsed = 0;
    int splitDepth = 3;
    bool splitting = false;
    std::function<bool()> onSplit;     // returns whether the subtree is mine
    bool splitSeen = false;
    u64 transitions = 0, checks = 0, comparisons = 0;
    std::unordered_set<u64> states, outcomes;
    WorkerShm *shm = nullptr;
    bool strict = false;               // replay: choices must match exactly

    void begin() {
        pos = 0; devUsed = 0; splitSeen = false; notes.clear();
    }
private:
    int pick(int n, const char *label) {
        if (n <= 0) n = 1;
        if (pos >= static_cast<size_t>(MAXTRACE)) { std::fprintf(stderr, "trace too long\n"); std::_Exit(97); }
        int c;
        if (pos < trace.size()) {
            c = trace[pos];
            if (!strict && pos < arity.size() && arity[pos] != n) {
                std::fprintf(stderr, "replay divergence at choice %zu (%s): arity %d, was %d\n", pos, label, n, arity[pos]);
                throw Failure{"divergence", "the same choices led to a different execution (the code depends on something other than its inputs)"};
            }
            if (c >= n) c = n - 1;
            if (pos >= arity.size()) arity.push_back(n);
        } else {
            c = 0;
            trace.push_back(0);
            arity.push_back(n);
        }
        if (shm) { shm->trace[pos] = c; shm->arity[pos] = n; shm->len = static_cast<int>(pos) + 1; }
        if (recording && sink) *sink << "choice " << label << " = " << c << " of " << n << std::endl;
        ++pos;
        if (splitting && static_cast<int>(pos) == splitDepth && !splitSeen) {
            splitSeen = true;
            if (!onSplit()) throw NotMine{};
        }
        return c;
    }
};

struct Scenario {
    std::string name;
    std::string bounds;                       // human readable: alphabet and bound
    std::function<void(Ctx &)> body;
    int devBound = 0;
    int splitDepth = 3;
};

struct Options {
    std::string property, tier = "quick", outDir = ".", replay, only;
    int workers = 8;
    double budget = 600;                      // seconds for the whole exploration
    double hang = 30;                         // seconds one execution may take
    std::vector<std::string> known;           // known signatures (prefix match)
    size_t memMB = 3000;
};

inline Options &opt() { static Options o; return o; }
inline bool thorough() { return opt().tier == "thorough"; }

inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += static_cast<char>(c);
    }
    return r;
}

// ---- running one execution: returns 0 ok, 1 failure, 2 not mine
inline int runOne(Ctx &c, const Scenario &s, Failure &f) {
    c.begin();
    c.devBound = s.devBound;
    try {
        s.body(c);
    } catch (NotMine &) {
        return 2;
    } catch (Failure &e) {
        f = e;
        return 1;
    } catch (Stop &) {
        return 0;
    } catch (std::exception &e) {
        f = Failure{"exception", std::string("exception escaped from the code under test: ") + e.what()};
        return 1;
    }
    return 0;
}

inline void silence() {
    int n = ::open("/dev/null", O_WRONLY);
    if (n >= 0) { ::dup2(n, 1); ::close(n); }
    std::cout.setstate(std::ios_base::badbit);
}

inline void limits() {
    struct rlimit r;
    r.rlim_cur = r.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &r);
#ifndef MC_ASAN
    r.rlim_cur = r.rlim_max = opt().memMB * 1024ull * 1024ull;
    setrlimit(RLIMIT_AS, &r);
#endif
}

inline bool nextTrace(Ctx &c) {
    // drop everything behind the last choice actually made, then advance
    c.trace.resize(c.pos);
    c.arity.resize(c.pos);
    while (!c.trace.empty()) {
        if (c.trace.back() + 1 < c.arity.back()) { ++c.trace.back(); return true; }
        c.trace.pop_back();
        c.arity.pop_back();
    }
    return false;
}

inline std::string traceStr(const std::vector<int> &t) {
    std::string s;
    for (size_t i = 0; i < t.size(); ++i) s += (i ? " " : "") + std::to_string(t[i]);
    return s;
}

inline bool isKnown(const std::string &sig) {
    for (auto &k : opt().known) if (sig == k) return true;
    return false;
}

struct Totals {
    u64 execs = 0, transitions = 0, checks = 0, comparisons = 0, skipped = 0;
    std::map<std::string, u64> perScen, known;
    std::vector<std::string> samples;
};

inline void writeWorker(int w, const Totals &t, const Ctx &c) {
    std::ofstream f(opt().outDir + fmt("/w%d.txt", w));
    f << "execs " << t.execs << "\ntransitions " << t.transitions << "\nchecks " << t.checks << "\ncomparisons " << t.comparisons << "\n";
    for (auto &p : t.perScen) f << "scen " << p.second << " " << p.first << "\n";
    for (auto &p : t.known) f << "known " << p.second << " " << p.first << "\n";
    for (auto &s : t.samples) f << "sample " << esc(s) << "\n";
    f.close();
    auto dump = [](const std::string &p, const std::unordered_set<u64> &v) {
        std::ofstream o(p, std::ios::binary);
        for (u64 h : v) o.write(reinterpret_cast<const char *>(&h), 8);
    };
    dump(opt().outDir + fmt("/w%d.states", w), c.states);
    dump(opt().outDir + fmt("/w%d.outcomes", w), c.outcomes);
}

inline void worker(int w, const std::vector<Scenario> &sc, Shm *shm, double deadline,
                   const std::vector<std::set<int>> *allowed = nullptr, int untilScen = -1, const std::vector<int> *until = nullptr) {
    WorkerShm &me = shm->w[w];
    Ctx c;
    c.shm = &me;
    Totals tot;
    for (size_t si = 0; si < sc.size(); ++si) {
        const Scenario &s = sc[si];
        if (!opt().only.empty() && s.name != opt().only) continue;
        me.scen = static_cast<int>(si);
        c.trace.clear(); c.arity.clear();
        c.splitDepth = s.splitDepth;
        c.splitting = true;
        int splitIdx = -1;
        std::vector<int> lastPrefix;
        c.onSplit = [&]() {
            std::vector<int> p(c.trace.begin(), c.trace.begin() + s.splitDepth);
            if (p != lastPrefix) { ++splitIdx; lastPrefix = p; }
            if (allowed) return (*allowed)[si].count(splitIdx) > 0;
            int i = std::min(splitIdx, MAXCLAIM - 1);
            unsigned char exp = 0;
            if (shm->claim[si][i] == w + 1) return true;
            return __atomic_compare_exchange_n(&shm->claim[si][i], &exp, static_cast<unsigned char>(w + 1), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        };
        int sampled = 0;
        bool more = true;
        u64 nExec = 0, unsplit = 0;
        while (more) {
            if (!allowed && shm->stop) { writeWorker(w, tot, c); me.done = 1; std::_Exit(0); }
            if (!allowed && now() > deadline) { shm->capped = 1; goto out; }
            me.len = 0;
            me.beat = now();
            c.recording = (sampled < 1);
            Failure f;
            int r = runOne(c, s, f);
            me.beat = 0;
            if (r != 2) {
                // executions shorter than the split depth are run by everybody but counted once
                bool count = c.splitSeen || w == 0;
                if (!c.splitSeen && ++unsplit == 100 && w == 0) std::fprintf(stderr, "warning: %s: split depth is deeper than many executions\n", s.name.c_str());
                if (count) { ++nExec; ++tot.execs; }
                if (c.recording && c.splitSeen) {
                    ++sampled;
                    std::string sm = s.name + ": [" + traceStr(std::vector<int>(c.trace.begin(), c.trace.begin() + static_cast<long>(c.pos))) + "]";
                    size_t lim = 0;
                    for (auto &n : c.notes) { sm += " | " + n; if (++lim > 12) break; }
                    if (sm.size() > 900) sm.resize(900);
                    if (tot.samples.size() < 4) tot.samples.push_back(sm);
                }
                if (r == 1) {
                    if (isKnown(f.sig)) {
                        ++tot.known[f.sig];
                    } else {
                        me.failScen = static_cast<int>(si);
                        me.failLen = static_cast<int>(c.pos);
                        for (size_t i = 0; i < c.pos; ++i) me.failTrace[i] = c.trace[i];
                        std::snprintf(me.sig, sizeof me.sig, "%s", f.sig.c_str());
                        std::snprintf(me.msg, sizeof me.msg, "%s", f.msg.c_str());
                        if (!allowed) {
                            me.failed = 1;
                            shm->stop = 1;
                            writeWorker(w, tot, c);
                            me.done = 1;
                            std::_Exit(0);
                        }
                        std::vector<int> t(c.trace.begin(), c.trace.begin() + static_cast<long>(c.pos));
                        if (static_cast<int>(si) == untilScen && t == *until) { me.failed = 1; std::_Exit(55); }
                    }
                }
            }
            more = nextTrace(c);
        }
        tot.perScen[s.name] += nExec;
        tot.transitions = c.transitions;
        tot.checks = c.checks;
        tot.comparisons = c.comparisons;
        continue;
    out:
        tot.perScen[s.name] += nExec;
        break;
    }
    tot.transitions = c.transitions;
    tot.checks = c.checks;
    tot.comparisons = c.comparisons;
    if (!allowed) writeWorker(w, tot, c);
    me.done = 1;
    std::_Exit(0);
}

struct ReplayResult { int kind = 0; std::string sig, msg, text; };  // 0 ok, 1 failure, 2 crash, 3 hang

// runs one trace alone in a fresh child
inline ReplayResult replayAlone(const std::vector<Scenario> &sc, int si, const std::vector<int> &trace, double limit) {
    ReplayResult rr;
    std::string out = opt().outDir + "/replay_out.txt", err = opt().outDir + "/replay_err.txt";
    std::fflush(stdout); std::fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        limits();
        silence();
        int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        ::dup2(fd, 2);
        Ctx c;
        c.trace = trace;
        c.strict = true;
        c.recording = true;
        std::ofstream o(out);
        Failure f;
        c.sink = &o;
        int r = runOne(c, sc[static_cast<size_t>(si)], f);
        o << "result " << r << "\n";
        o << "sig " << f.sig << "\n" << "msg " << esc(f.msg) << "\n";
        o.close();
        std::_Exit(r == 1 ? 55 : 0);
    }
    double t0 = now();
    int st = 0;
    while (true) {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) break;
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            rr.kind = 3;
            rr.sig = "hang";
            rr.msg = fmt("the execution did not finish within %.0f s", limit);
            return rr;
        }
        usleep(2000);
    }
    std::ifstream fo(out), fe(err);
    std::stringstream so, se;
    so << fo.rdbuf();
    se << fe.rdbuf();
    rr.text = so.str();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return rr;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 55) {
        rr.kind = 1;
        std::string line;
        std::stringstream ss(rr.text);
        while (std::getline(ss, line)) {
            if (line.rfind("sig ", 0) == 0) rr.sig = line.substr(4);
            if (line.rfind("msg ", 0) == 0) rr.msg = line.substr(4);
        }
        return rr;
    }
    rr.kind = 2;
    std::string e = se.str();
    std::string what = WIFSIGNALED(st) ? fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exit status %d", WEXITSTATUS(st));
    std::string first;
    size_t p = e.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = e.find("Assertion");
    if (p != std::string::npos) first = e.substr(p, std::min<size_t>(300, e.find('\n', p) - p));
    rr.sig = "crash";
    rr.msg = "the code under test ended with " + what + (first.empty() ? "" : ": " + first);
    rr.text += "stderr:\n" + e.substr(0, 6000);
    return rr;
}

inline int finish(const std::vector<Scenario> &sc, const std::string &status, const std::string &sig, const std::string &msg,
                  const std::string &replayPath, bool capped, double t0, int retries) {
    // merge
    Totals tot;
    std::vector<u64> st, oc;
    std::map<std::string, u64> scen, known;
    for (int w = 0; w < 64; ++w) {
        std::ifstream f(opt().outDir + fmt("/w%d.txt", w));
        if (!f) continue;
        std::string line;
        while (std::getline(f, line)) {
            std::stringstream ss(line);
            std::string k;
            ss >> k;
            if (k == "execs") { u64 v; ss >> v; tot.execs += v; }
            else if (k == "transitions") { u64 v; ss >> v; tot.transitions += v; }
            else if (k == "checks") { u64 v; ss >> v; tot.checks += v; }
            else if (k == "comparisons") { u64 v; ss >> v; tot.comparisons += v; }
            else if (k == "scen" || k == "known") {
                u64 v; ss >> v;
                std::string n;
                std::getline(ss, n);
                n.erase(0, 1);
                (k == "scen" ? scen : known)[n] += v;
            } else if (k == "sample") {
                if (tot.samples.size() < 8) tot.samples.push_back(line.substr(7));
            }
        }
        for (int j = 0; j < 2; ++j) {
            std::ifstream b(opt().outDir + fmt(j ? "/w%d.outcomes" : "/w%d.states", w), std::ios::binary);
            u64 h;
            auto &v = j ? oc : st;
            while (b.read(reinterpret_cast<char *>(&h), 8)) v.push_back(h);
        }
    }
    auto uniq = [](std::vector<u64> &v) { std::sort(v.begin(), v.end()); return static_cast<u64>(std::unique(v.begin(), v.end()) - v.begin()); };
    u64 ns = uniq(st), no = uniq(oc);
    std::ofstream o(opt().outDir + "/result.json");
    o << "{\"status\":\"" << status << "\",\"sig\":\"" << esc(sig) << "\",\"msg\":\"" << esc(msg) << "\",\"replay\":\"" << esc(replayPath) << "\",";
    o << "\"executions\":" << tot.execs << ",\"transitions\":" << tot.transitions << ",\"states\":" << ns << ",\"outcomes\":" << no
      << ",\"checks\":" << tot.checks << ",\"comparisons\":" << tot.comparisons << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"retries\":" << retries << ",\"wall_s\":" << fmt("%.2f", now() - t0) << ",\"scenarios\":[";
    bool first = true;
    for (auto &s : sc) {
        if (!opt().only.empty() && s.name != opt().only) continue;
        o << (first ? "" : ",") << "{\"name\":\"" << esc(s.name) << "\",\"bounds\":\"" << esc(s.bounds) << "\",\"deviation_bound\":" << s.devBound << ",\"executions\":" << scen[s.name] << "}";
        first = false;
    }
    o << "],\"known\":{";
    first = true;
    for (auto &k : known) { o << (first ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto &s : tot.samples) { o << (first ? "" : ",") << "\"" << s << "\""; first = false; }
    o << "]}\n";
    return status == "ok" ? 0 : 1;
}

inline std::string writeReplay(const std::vector<Scenario> &sc, int si, const std::vector<int> &trace, const ReplayResult &rr,
                               bool warm, const std::vector<std::set<int>> &allowed, int w) {
    std::string path = opt().outDir + "/violation.txt";
    std::ofstream o(path);
    o << "property " << opt().property << "\ntier " << opt().tier << "\nscenario " << sc[static_cast<size_t>(si)].name << "\ntrace " << traceStr(trace) << "\n";
    o << "mode " << (warm ? "warm" : "alone") << "\nworker " << w << "\n";
    if (warm) for (size_t i = 0; i < allowed.size(); ++i) {
        o << "allowed " << i;
        for (int k : allowed[i]) o << " " << k;
        o << "\n";
    }
    o << "signature " << rr.sig << "\nmessage " << rr.msg << "\n--\n" << rr.text;
    return path;
}

inline int warmRun(const std::vector<Scenario> &sc, Shm *shm, int w, const std::vector<std::set<int>> &allowed, int si, const std::vector<int> &trace, double limit) {
    pid_t pid = fork();
    if (pid == 0) {
        limits();
        silence();
        worker(w, sc, shm, 0, &allowed, si, &trace);
        std::_Exit(0);
    }
    double t0 = now();
    int st = 0;
    while (true) {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) break;
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 3; }
        usleep(5000);
    }
    if (WIFEXITED(st)) return WEXITSTATUS(st) == 55 ? 1 : (WEXITSTATUS(st) == 0 ? 0 : 2);
    return 2;
}

inline int run(int argc, char **argv, const std::function<std::vector<Scenario>(const std::string &prop)> &make) {
    Options &o = opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") o.property = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--out") o.outDir = val();
        else if (a == "--workers") o.workers = std::atoi(val().c_str());
        else if (a == "--budget") o.budget = std::atof(val().c_str());
        else if (a == "--hang") o.hang = std::atof(val().c_str());
        else if (a == "--known") o.known.push_back(val());
        else if (a == "--replay") o.replay = val();
        else if (a == "--only") o.only = val();
    }
    o.workers = std::min(o.workers, 60);
    double t0 = now();
    std::vector<Scenario> sc = make(o.property);
    if (sc.empty()) { std::fprintf(stderr, "no scenario for %s\n", o.property.c_str()); return 3; }
    size_t shmSize = sizeof(Shm);
    Shm *shm = static_cast<Shm *>(mmap(nullptr, shmSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED) { std::perror("mmap"); return 3; }

    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        std::string line, scen, mode;
        std::vector<int> trace;
        std::vector<std::set<int>> allowed(sc.size());
        int w = 0;
        while (std::getline(f, line)) {
            std::stringstream ss(line);
            std::string k;
            ss >> k;
            if (k == "scenario") { std::getline(ss, scen); scen.erase(0, 1); }
            else if (k == "trace") { int v; while (ss >> v) trace.push_back(v); }
            else if (k == "mode") ss >> mode;
            else if (k == "worker") ss >> w;
            else if (k == "allowed") { size_t i; ss >> i; int v; while (ss >> v) if (i < allowed.size()) allowed[i].insert(v); }
            else if (k == "--") break;
        }
        int si = -1;
        for (size_t i = 0; i < sc.size(); ++i) if (sc[i].name == scen) si = static_cast<int>(i);
        if (si < 0) { std::fprintf(stderr, "scenario '%s' not found\n", scen.c_str()); return 3; }
        int code;
        if (mode == "warm") {
            code = warmRun(sc, shm, w, allowed, si, trace, 1800);
            std::printf("warm replay: %s %s\n", code == 0 ? "no violation" : shm->w[w].sig, shm->w[w].msg);
        } else {
            ReplayResult rr = replayAlone(sc, si, trace, 120);
            std::printf("%s\n%s\n%s\n", rr.kind ? rr.sig.c_str() : "no violation", rr.msg.c_str(), rr.text.c_str());
            code = rr.kind;
        }
        return code ? 1 : 0;
    }

    double deadline = t0 + o.budget;
    std::vector<pid_t> pid(static_cast<size_t>(o.workers), 0);
    auto spawn = [&](int w) {
        std::fflush(stdout); std::fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            limits();
            silence();
            int fd = ::open((o.outDir + fmt("/err%d.txt", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { ::dup2(fd, 2); ::close(fd); }
            worker(w, sc, shm, deadline);
            std::_Exit(0);
        }
        pid[static_cast<size_t>(w)] = p;
    };
    for (int w = 0; w < o.workers; ++w) spawn(w);

    int retries = 0;
    int live = o.workers;
    struct Susp { int w, scen, kind; std::vector<int> trace; };
    std::vector<Susp> susp;
    double stopAt = 0;
    while (live > 0) {
        bool progress = false;
        for (int w = 0; w < o.workers; ++w) {
            pid_t &p = pid[static_cast<size_t>(w)];
            if (!p) continue;
            int st = 0;
            pid_t r = waitpid(p, &st, WNOHANG);
            WorkerShm &me = shm->w[w];
            if (r == p) {
                progress = true;
                p = 0;
                --live;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && me.done)) {
                    Susp s{w, me.scen, 2, {}};
                    for (int i = 0; i < me.len; ++i) s.trace.push_back(static_cast<int>(me.trace[i]));
                    susp.push_back(s);
                    shm->stop = 1;
                }
                continue;
            }
            double b = me.beat;
            if (b > 0 && now() - b > o.hang) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                p = 0;
                --live;
                progress = true;
                Susp s{w, me.scen, 3, {}};
                for (int i = 0; i < me.len; ++i) s.trace.push_back(static_cast<int>(me.trace[i]));
                susp.push_back(s);
                shm->stop = 1;
            }
        }
        if (shm->stop && !stopAt) stopAt = now();
        if (!progress) usleep(5000);
    }

    std::vector<std::set<int>> none(sc.size());
    auto claims = [&](int w) {
        std::vector<std::set<int>> a(sc.size());
        for (size_t i = 0; i < sc.size() && i < MAXSCEN; ++i)
            for (int k = 0; k < MAXCLAIM; ++k) if (shm->claim[i][k] == w + 1) a[i].insert(k);
        return a;
    };
    // oracle failures: take the earliest scenario, then the shortest trace
    int best = -1;
    for (int w = 0; w < o.workers; ++w) {
        if (!shm->w[w].failed) continue;
        if (best < 0) { best = w; continue; }
        auto key = [&](int x) { return std::make_pair(static_cast<int>(shm->w[x].failScen), static_cast<int>(shm->w[x].failLen)); };
        if (key(w) < key(best)) best = w;
    }
    bool spurious = false;
    if (best >= 0) {
        WorkerShm &f = shm->w[best];
        std::vector<int> t;
        for (int i = 0; i < f.failLen; ++i) t.push_back(static_cast<int>(f.failTrace[i]));
        std::string sig = f.sig, msg = f.msg;
        ReplayResult rr = replayAlone(sc, f.failScen, t, 4 * o.hang);
        bool warm = false;
        std::vector<std::set<int>> al = none;
        if (rr.kind == 0) {
            warm = true;
            al = claims(best);
            int r = warmRun(sc, shm, best, al, f.failScen, t, 300);
            rr.sig = sig;
            rr.msg = esc(msg) + (r == 1 ? " (needs the executions before it in the same process)" : " (did not fail again when replayed: the code depends on something other than its inputs)");
        }
        std::string path = writeReplay(sc, f.failScen, t, rr, warm, al, best);
        return finish(sc, "violation", rr.sig, rr.msg, path, true, t0, retries);
    }
    for (auto &s : susp) {
        ReplayResult rr = replayAlone(sc, s.scen, s.trace, std::max(60.0, 4 * o.hang));
        if (rr.kind) {
            if (isKnown(rr.sig)) { spurious = true; continue; }
            std::string path = writeReplay(sc, s.scen, s.trace, rr, false, none, s.w);
            return finish(sc, "violation", rr.sig, rr.msg, path, true, t0, retries);
        }
        if (s.kind == 2) {
            auto al = claims(s.w);
            int r = warmRun(sc, shm, s.w, al, s.scen, s.trace, 300);
            if (r == 2) {
                rr.sig = "crash";
                rr.msg = "the code under test crashed (needs the executions before it in the same process)";
                std::string path = writeReplay(sc, s.scen, s.trace, rr, true, al, s.w);
                return finish(sc, "violation", rr.sig, rr.msg, path, true, t0, retries);
            }
        }
        spurious = true;
    }
    if (spurious) {
        // killed or stalled from outside (memory, load): the exploration is incomplete, say so
        return finish(sc, "incomplete", "", "a worker was stopped from outside and its execution passes alone", "", true, t0, retries);
    }
    return finish(sc, "ok", "", "", "", shm->capped != 0, t0, retries);
}

}  // namespace mc
