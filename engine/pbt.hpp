// A small Hypothesis-style property-based testing engine.
//
//  * Every random decision of a case is one "choice" (an integer below a bound)
//    drawn from a recorded choice sequence; a case is a pure function of that
//    sequence.  Shrinking edits the sequence, replay feeds it back.
//  * Cases run in batches inside forked children.  Choices are written to
//    shared memory as they are drawn, so that a crash, an abort by a sanitizer,
//    an exit() from inside the code under test or a hang is attributed to the
//    case that caused it and replayed like any other failure.
//  * A failure is confirmed three times in fresh processes, shrunk, written to a
//    replay file and only then reported.
#pragma once

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
#include <malloc.h>
#endif

namespace pbt {

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0xD6E8FEB86659FD93ull + b + 0x632BE59BD9B4E019ull;
    return splitmix(x);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

constexpr size_t kMaxChoices = 1u << 16;
constexpr size_t kText = 1u << 13;
constexpr size_t kBlob = 1u << 18;

struct Slot {                       // shared between the parent and one child
    volatile uint32_t case_idx;
    volatile uint32_t nchoices;
    volatile uint32_t overflow;
    volatile uint32_t state;        // 0 running, 1 finished ok, 2 property failure
    volatile uint64_t case_started_ms;
    uint64_t choices[kMaxChoices];
    char msg[kText];
    char desc[kText];
    volatile uint32_t blob_size;
    char blob[kBlob];
};

inline uint64_t now_ms() {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

struct Failure : std::exception {
    std::string m;
    explicit Failure(std::string s) : m(std::move(s)) {}
    const char* what() const noexcept override { return m.c_str(); }
};

// The choice sequence of one case.
class Case {
public:
    std::ostringstream desc;        // human readable description of the case

    Case(Slot* slot, const uint64_t* replay, size_t nreplay, uint64_t seed, bool random)
        : m_slot(slot), m_replay(replay), m_nreplay(nreplay), m_rng(seed), m_random(random) {}

    // uniform in [0, n)
    uint64_t draw(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (m_pos < m_nreplay)  v = m_replay[m_pos] % n;
        else if (m_random)      v = splitmix(m_rng) % n;
        else                    v = 0;
        ++m_pos;
        uint32_t k = m_slot->nchoices;
        if (k < kMaxChoices) { m_slot->choices[k] = v; m_slot->nchoices = k + 1; }
        else m_slot->overflow = 1;
        m_hash = mix(m_hash, v * 2654435761u + n);
        return v;
    }
    int64_t integer(int64_t lo, int64_t hi) {     // shrinks towards lo
        return lo + int64_t(draw(uint64_t(hi - lo) + 1));
    }
    // Mostly small, occasionally up to hi.  Shrinks towards lo.
    int64_t sized(int64_t lo, int64_t mid, int64_t hi, int percent_big = 15) {
        if (mid < lo) mid = lo;
        if (mid > hi) mid = hi;
        return flag(percent_big) ? integer(lo, hi) : integer(lo, mid);
    }
    bool flag(int percent = 50) { return draw(100) >= uint64_t(100 - percent); }  // shrinks to false
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
    uint32_t seed32() { return uint32_t(draw(1ull << 32)); }
    double real(double lo, double hi) {
        return lo + (hi - lo) * double(draw(1u << 20)) / double((1u << 20) - 1);
    }
    // a hyper-parameter: usual values, or any value of [lo, hi] (logarithmically spread when lo > 0)
    float hyper(std::initializer_list<float> usual, double lo, double hi, int percent_any = 30) {
        if (!flag(percent_any)) return pick(usual);
        return float(lo > 0 ? std::exp(real(std::log(lo), std::log(hi))) : real(lo, hi));
    }
    template <class It> void shuffle(It b, It e) {
        for (auto n = e - b; n > 1; --n) std::swap(b[n - 1], b[(n - 1) - draw(n)]);
    }

    void label(const std::string& s, uint64_t n = 1) { m_labels[s] += n; }
    void nontrivial(bool b = true) { m_nontrivial = b; }
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    void check(bool ok, const std::string& m) { if (!ok) throw Failure(m); }

    uint64_t hash() const { return m_hash; }
    bool is_nontrivial() const { return m_nontrivial; }
    const std::map<std::string, uint64_t>& labels() const { return m_labels; }
    // Publish the description now (before running code that may crash).
    void publish() {
        std::string s = desc.str();
        size_t n = std::min(s.size(), kText - 1);
        memcpy(m_slot->desc, s.data(), n); m_slot->desc[n] = 0;
    }

private:
    Slot* m_slot;
    const uint64_t* m_replay; size_t m_nreplay; size_t m_pos = 0;
    uint64_t m_rng; bool m_random;
    uint64_t m_hash = 7;
    bool m_nontrivial = false;
    std::map<std::string, uint64_t> m_labels;
};

// What std::random_device returns to the code under test (set per child).
inline uint64_t& entropy() { static uint64_t e = 1; return e; }

// Cheap deterministic expansion of one choice into bulk data.
struct Expand {
    uint64_t s;
    explicit Expand(uint64_t seed) : s(mix(seed, 0xABCDEF)) {}
    uint64_t u64() { return splitmix(s); }
    uint64_t below(uint64_t n) { return splitmix(s) % n; }
    double unit() { return double(splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }
};

struct Facet {
    std::string name;
    std::function<void(Case&)> fn;
    int quick_cases;      // number of cases at the quick tier
    int thorough_mult;    // thorough = quick * mult
    int batch;            // cases per forked child
    bool nondet;          // failure may depend on the thread schedule
    bool slow = false;    // large cases: a generous time limit
};

struct Registry {
    std::vector<Facet> facets;
    std::string property, rule;
    std::vector<std::string> assumptions;
    std::function<void()> child_init;
    static Registry& get() { static Registry r; return r; }
};

inline void facet(const std::string& name, int quick_cases, std::function<void(Case&)> fn,
                  int thorough_mult = 12, int batch = 40, bool nondet = false) {
    Registry::get().facets.push_back({name, std::move(fn), quick_cases, thorough_mult, batch, nondet});
}

// Cases of a "large" facet: the generators ask big() and produce realistic sizes
// (batches of hundreds, 10^5..10^6 elements) instead of mostly small ones.
inline bool& big() { static bool b = false; return b; }
inline int64_t sz(int64_t small, int64_t large) { return big() ? large : small; }
// Cases of a "marathon" facet: small sizes, but one object used a hundred times and more.
inline bool& marathon() { static bool b = false; return b; }
inline void marathon_facet(const std::string& name, int quick_cases, std::function<void(Case&)> fn, int thorough_mult = 10, int batch = 3) {
    facet(name, quick_cases, [fn](Case& c) { struct On { On() { marathon() = true; } ~On() { marathon() = false; } } on; fn(c); }, thorough_mult, batch);
    Registry::get().facets.back().slow = true;
}
// how often something is repeated
inline int repeats(Case& c, int usual, int large, int lo = 60, int hi = 300) { return marathon() ? int(c.integer(lo, hi)) : int(c.sized(1, usual, large)); }
inline void large_facet(const std::string& name, int quick_cases, std::function<void(Case&)> fn, int thorough_mult = 10, int batch = 3) {
    facet(name, quick_cases, [fn](Case& c) { struct On { On() { big() = true; } ~On() { big() = false; } } on; fn(c); }, thorough_mult, batch);
    Registry::get().facets.back().slow = true;
}

// ---------------------------------------------------------------------------
inline size_t live_bytes() {
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    struct mallinfo2 mi = mallinfo2();
    return mi.uordblks + mi.hblkhd;
#endif
}

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

enum Outcome { OK = 0, FAILED = 1, CRASHED = 2, HUNG = 3 };

struct RunResult {
    Outcome outcome = OK;
    uint32_t case_idx = 0;
    std::vector<uint64_t> choices;
    bool overflow = false;
    std::string msg, desc;
};

class Runner {
public:
    Runner(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]{ return std::string(argv[++i]); };
            if (a == "--seed") m_seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--tier") m_thorough = val() == "thorough";
            else if (a == "--scale") m_scale = atof(val().c_str());
            else if (a == "--jobs") m_jobs = atoi(val().c_str());
            else if (a == "--facet") m_only = val();
            else if (a == "--stats") m_stats_path = val();
            else if (a == "--replay") m_replay = val();
            else if (a == "--replay-out") m_replay_out = val();
            else if (a == "--variant") m_variant = val();
            else if (a == "--deadline") m_deadline_s = atof(val().c_str());
            else if (a == "--case-timeout") m_case_timeout_ms = 1000ull * atoi(val().c_str());
            else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
        }
    }

    int main() {
        auto& reg = Registry::get();
        m_slots.resize(m_jobs + 1);
        for (auto& s : m_slots) {
            s = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (s == MAP_FAILED) { perror("mmap"); return 2; }
            m_logs.push_back(memfd_create("log", 0));
        }
        if (!m_replay.empty()) return replay_main();

        const uint64_t t0 = now_ms();
        struct Job { const Facet* f; int batch; int ncases; };
        std::vector<Job> jobs;
        {   // interleave the facets so that a deadline cuts all of them evenly
            std::vector<std::vector<Job>> per;
            size_t longest = 0;
            for (auto& f : reg.facets) {
                if (!m_only.empty() && f.name.find(m_only) == std::string::npos) continue;
                long n = std::lround(f.quick_cases * (m_thorough ? f.thorough_mult : 1) * m_scale);
                if (n < 1) n = 1;
                std::vector<Job> v;
                for (int b = 0; n > 0; ++b) {
                    int k = int(std::min<long>(n, f.batch));
                    v.push_back({&f, b, k}); n -= k;
                }
                longest = std::max(longest, v.size());
                per.push_back(std::move(v));
            }
            // stride-interleave
            std::vector<std::pair<double, Job>> all;
            for (auto& v : per)
                for (size_t i = 0; i < v.size(); ++i) all.push_back({double(i) / v.size(), v[i]});
            std::stable_sort(all.begin(), all.end(), [](auto& a, auto& b){ return a.first < b.first; });
            for (auto& p : all) jobs.push_back(p.second);
        }

        struct Live { pid_t pid; Job job; };
        std::vector<Live> live(m_jobs, Live{0, {}});
        size_t next = 0, running = 0;
        bool stop = false;
        int unconfirmed = 0;
        while (running > 0 || (!stop && next < jobs.size())) {
            for (int s = 0; s < m_jobs && !stop && next < jobs.size(); ++s) {
                if (live[s].pid) continue;
                if ((now_ms() - t0) / 1000.0 > m_deadline_s) { stop = true; m_deadline_hit = true; break; }
                live[s].job = jobs[next++];
                live[s].pid = spawn(s, *live[s].job.f, live[s].job.batch, 0, live[s].job.ncases, nullptr);
                ++running;
            }
            bool progressed = false;
            for (int s = 0; s < m_jobs; ++s) {
                if (!live[s].pid) continue;
                RunResult r;
                if (!poll_child(s, live[s].pid, r)) continue;
                progressed = true;
                live[s].pid = 0; --running;
                collect_stats(s, *live[s].job.f, r);
                if (r.outcome == OK) continue;
                if (stop && m_violation) continue;
                const Facet& f = *live[s].job.f;
                Job job = live[s].job;
                std::string kind = confirm(f, job.batch, r);
                if (kind.empty()) {
                    ++unconfirmed;
                    fprintf(stderr, "[pbt] unconfirmed failure in %s batch %d case %u: %s\n",
                            f.name.c_str(), job.batch, r.case_idx, r.msg.c_str());
                    // Finish the rest of the batch after the case that failed once.
                    int rest = job.ncases - int(r.case_idx) - 1;
                    (void)rest;
                    continue;
                }
                m_violation = true; stop = true;
                for (int q = 0; q < m_jobs; ++q) if (live[q].pid) {
                    kill(live[q].pid, SIGKILL); waitpid(live[q].pid, nullptr, 0);
                    live[q].pid = 0; --running;
                }
                if (kind == "case") shrink(f, job.batch, r);
                write_replay(f, job.batch, r, kind);
            }
            if (!progressed) usleep(400);
        }
        m_unconfirmed = unconfirmed;
        write_stats((now_ms() - t0) / 1000.0);
        if (m_violation) { printf("PBT-VIOLATION %s\n", m_replay_out.c_str()); return 1; }
        return 0;
    }

private:
    // ---- child side --------------------------------------------------------
    [[noreturn]] void child(int s, const Facet& f, int batch, int first, int ncases,
                            const std::vector<uint64_t>* fixed) {
        Slot* slot = m_slots[s];
        dup2(m_logs[s], 1); dup2(m_logs[s], 2);
        auto& reg = Registry::get();
        entropy() = mix(mix(m_seed, hash_str(f.name)), batch + 77);
        if (reg.child_init) reg.child_init();
        std::map<std::string, uint64_t> labels;
        std::vector<uint64_t> hashes;
        std::vector<std::string> samples;
        uint64_t nontriv = 0, evals = 0, slowest = 0;
        for (int i = first; i < ncases; ++i) {
            slot->case_idx = i; slot->nchoices = 0; slot->overflow = 0;
            slot->msg[0] = 0; slot->desc[0] = 0;
            slot->case_started_ms = now_ms();
            uint64_t seed = mix(mix(mix(m_seed, hash_str(reg.property + "/" + f.name)), batch), i);
            Case c(slot, fixed ? fixed->data() : nullptr, fixed ? fixed->size() : 0, seed, fixed == nullptr);
            std::string err;
            bool bad = false;
            try { f.fn(c); }
            catch (const Failure& e) { bad = true; err = e.m; }
            catch (const std::exception& e) { bad = true; err = std::string("unexpected exception: ") + e.what(); }
            catch (...) { bad = true; err = "unexpected exception of unknown type"; }
            c.publish();
            if (bad) {
                size_t n = std::min(err.size(), kText - 1);
                memcpy(slot->msg, err.data(), n); slot->msg[n] = 0;
            }
            ++evals; slowest = std::max<uint64_t>(slowest, now_ms() - slot->case_started_ms);
            for (auto& l : c.labels()) labels[l.first] += l.second;
            if (c.is_nontrivial()) {
                ++nontriv; hashes.push_back(c.hash());
                if (samples.size() < 1 && slot->desc[0]) samples.push_back(slot->desc);
            }
            if (bad) { dump(slot, evals, nontriv, slowest, hashes, labels, samples); slot->state = 2; _exit(0); }
        }
        dump(slot, evals, nontriv, slowest, hashes, labels, samples);
        slot->state = 1;
        _exit(0);
    }

    static void dump(Slot* slot, uint64_t evals, uint64_t nontriv, uint64_t slowest, const std::vector<uint64_t>& hashes,
                     const std::map<std::string, uint64_t>& labels, const std::vector<std::string>& samples) {
        std::string b;
        auto put = [&](uint64_t v) { b.append(reinterpret_cast<char*>(&v), 8); };
        put(evals); put(nontriv); put(slowest); put(hashes.size());
        for (auto h : hashes) put(h);
        put(labels.size());
        for (auto& l : labels) { put(l.second); put(l.first.size()); b += l.first; }
        put(samples.size());
        for (auto& s : samples) { std::string t = s.substr(0, 600); put(t.size()); b += t; }
        if (b.size() > kBlob) { slot->blob_size = 0; return; }
        memcpy(slot->blob, b.data(), b.size());
        slot->blob_size = b.size();
    }

    // ---- parent side -------------------------------------------------------
    pid_t spawn(int s, const Facet& f, int batch, int first, int ncases, const std::vector<uint64_t>* fixed) {
        Slot* slot = m_slots[s];
        slot->state = 0; slot->case_idx = 0; slot->nchoices = 0; slot->overflow = 0; slot->blob_size = 0;
        slot->msg[0] = slot->desc[0] = 0;
        slot->case_started_ms = now_ms();
        m_limit_ms[s] = m_case_timeout_ms * (f.slow ? 3 : 1);
        if (ftruncate(m_logs[s], 0)) {}
        lseek(m_logs[s], 0, SEEK_SET);
        fflush(nullptr);
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(2); }
        if (p == 0) child(s, f, batch, first, ncases, fixed);
        return p;
    }

    bool poll_child(int s, pid_t pid, RunResult& r) {
        Slot* slot = m_slots[s];
        int st = 0;
        pid_t w = waitpid(pid, &st, WNOHANG);
        bool hung = false;
        if (w == 0) {
            if (int64_t(now_ms()) - int64_t(slot->case_started_ms) < int64_t(m_limit_ms[s])) return false;
            hung = true;
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
        }
        r.case_idx = slot->case_idx;
        r.overflow = slot->overflow;
        r.choices.assign(slot->choices, slot->choices + slot->nchoices);
        r.msg = slot->msg; r.desc = slot->desc;
        if (hung) { r.outcome = HUNG; r.msg = "did not terminate within the case time limit"; }
        else if (slot->state == 1) r.outcome = OK;
        else if (slot->state == 2) r.outcome = FAILED;
        else {
            r.outcome = CRASHED;
            std::ostringstream os;
            if (WIFSIGNALED(st)) os << "killed by signal " << WTERMSIG(st);
            else os << "process exited with status " << WEXITSTATUS(st) << " in the middle of a case";
            os << "\n" << log_text(s, 6000);
            r.msg = os.str();
        }
        return true;
    }

    std::string log_text(int s, size_t max) {
        off_t n = lseek(m_logs[s], 0, SEEK_END);
        std::string t(std::min<size_t>(n > 0 ? n : 0, max), 0);
        if (!t.empty()) { ssize_t k = pread(m_logs[s], &t[0], t.size(), 0); t.resize(k > 0 ? k : 0); }
        // a sanitizer report is more useful than what precedes it
        auto p = t.find("==ERROR"); if (p == std::string::npos) p = t.find("WARNING: ThreadSanitizer");
        if (p != std::string::npos && p > 20) t = t.substr(p - 10);
        return t;
    }

    RunResult run_fixed(const Facet& f, int batch, const std::vector<uint64_t>& choices) {
        int s = m_jobs;
        pid_t p = spawn(s, f, batch, 0, 1, &choices);
        RunResult r;
        while (!poll_child(s, p, r)) usleep(150);
        return r;
    }
    RunResult run_prefix(const Facet& f, int batch, int ncases) {
        int s = m_jobs;
        pid_t p = spawn(s, f, batch, 0, ncases, nullptr);
        RunResult r;
        while (!poll_child(s, p, r)) usleep(150);
        return r;
    }

    std::string confirm(const Facet& f, int batch, const RunResult& r) {
        const bool hung = r.outcome == HUNG;
        const int tries = hung ? 1 : f.nondet ? 24 : 3, need = hung ? 1 : f.nondet ? 2 : 3;
        int bad = 0;
        if (!r.overflow) {
            for (int i = 0; i < tries && bad < need; ++i) {
                if (run_fixed(f, batch, r.choices).outcome != OK) ++bad;
                else if (!f.nondet) break;
            }
            if (bad >= need) return "case";
        }
        bad = 0;
        for (int i = 0; i < tries && bad < need; ++i) {
            if (run_prefix(f, batch, int(r.case_idx) + 1).outcome != OK) ++bad;
            else if (!f.nondet) break;
        }
        if (bad >= need) return "batch";
        return "";
    }

    bool still_fails(const Facet& f, int batch, const std::vector<uint64_t>& ch, RunResult& best) {
        int tries = f.nondet ? 4 : 1;
        for (int i = 0; i < tries; ++i) {
            RunResult r = run_fixed(f, batch, ch);
            if (r.outcome == OK) continue;
            if (r.outcome == HUNG && best.outcome != HUNG) return false;
            // keep what the case actually drew
            best = r;
            return true;
        }
        return false;
    }

    static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }

    void shrink(const Facet& f, int batch, RunResult& r) {
        const uint64_t end = now_ms() + (m_thorough ? 60000 : 20000);
        if (r.outcome == HUNG) return;
        int budget = 3000;
        bool improved = true;
        auto attempt = [&](std::vector<uint64_t> cand) {
            if (budget-- <= 0 || now_ms() > end) return false;
            RunResult cur = r;
            if (!still_fails(f, batch, cand, cur)) return false;
            if (!simpler(cur.choices, r.choices)) return false;
            r = cur; improved = true;
            return true;
        };
        while (improved && budget > 0 && now_ms() < end) {
            improved = false;
            for (size_t len : {64, 16, 8, 4, 2, 1})           // delete chunks
                for (size_t i = r.choices.size(); i >= len && i > 0; --i) {
                    if (i > r.choices.size()) { i = r.choices.size() + 1; continue; }
                    if (now_ms() > end) break;
                    auto c = r.choices;
                    c.erase(c.begin() + (i - len), c.begin() + i);
                    attempt(c);
                }
            for (size_t len : {32, 8, 1})                     // zero chunks
                for (size_t i = 0; i + len <= r.choices.size(); i += len) {
                    auto c = r.choices; bool any = false;
                    for (size_t k = 0; k < len; ++k) { any |= c[i + k] != 0; c[i + k] = 0; }
                    if (any) attempt(c);
                    if (now_ms() > end) break;
                }
            for (size_t i = 0; i < r.choices.size(); ++i) {   // lower single values
                uint64_t lo = 0, hi = r.choices[i];
                while (lo < hi && now_ms() < end) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    auto c = r.choices; c[i] = mid;
                    if (attempt(c) && i < r.choices.size() && r.choices[i] <= mid) hi = r.choices[i];
                    else lo = mid + 1;
                    if (i >= r.choices.size()) break;
                }
            }
        }
    }

    void write_replay(const Facet& f, int batch, const RunResult& r, const std::string& kind) {
        if (m_replay_out.empty()) return;
        std::ofstream o(m_replay_out);
        auto& reg = Registry::get();
        o << "pbt-replay 1\nproperty " << reg.property << "\nvariant " << m_variant << "\nfacet " << f.name
          << "\nkind " << kind << "\nseed " << m_seed << "\nbatch " << batch << "\ncase " << r.case_idx
          << "\nchoices " << r.choices.size();
        for (auto c : r.choices) o << ' ' << c;
        o << "\n--- case\n" << r.desc << "\n--- failure\n" << r.msg << "\n";
        m_fail_msg = r.msg; m_fail_desc = r.desc; m_fail_facet = f.name;
    }

    int replay_main() {
        std::ifstream in(m_replay);
        std::string w, facet, kind = "case"; int batch = 0; uint32_t idx = 0;
        std::vector<uint64_t> ch;
        while (in >> w) {
            if (w == "facet") in >> facet;
            else if (w == "kind") in >> kind;
            else if (w == "seed") in >> m_seed;
            else if (w == "batch") in >> batch;
            else if (w == "case") in >> idx;
            else if (w == "choices") { size_t n; in >> n; ch.resize(n); for (auto& c : ch) in >> c; }
            else if (w == "---") break;
        }
        for (auto& f : Registry::get().facets) if (f.name == facet) {
            RunResult r;
            for (int i = 0; i < (f.nondet ? 24 : 1); ++i) {
                r = kind == "case" ? run_fixed(f, batch, ch) : run_prefix(f, batch, int(idx) + 1);
                if (r.outcome != OK) break;
            }
            printf("--- case\n%s\n--- outcome: %s\n%s\n", r.desc.c_str(),
                   r.outcome == OK ? "held" : "FAILED", r.msg.c_str());
            return r.outcome == OK ? 0 : 1;
        }
        fprintf(stderr, "no such facet: %s\n", facet.c_str());
        return 2;
    }

    struct FStat { uint64_t evals = 0, nontriv = 0, slowest = 0; std::unordered_set<uint64_t> distinct;
                   std::map<std::string, uint64_t> labels; std::vector<std::string> samples; };

    void collect_stats(int s, const Facet& f, const RunResult& r) {
        auto& st = m_stats[f.name];
        Slot* slot = m_slots[s];
        if (slot->blob_size == 0) { st.evals += r.case_idx + 1; return; }
        const char* p = slot->blob; const char* e = p + slot->blob_size;
        auto get = [&]() -> uint64_t { uint64_t v = 0; if (p + 8 <= e) { memcpy(&v, p, 8); p += 8; } return v; };
        auto str = [&](uint64_t n) { n = std::min<uint64_t>(n, e - p); std::string t(p, n); p += n; return t; };
        st.evals += get(); st.nontriv += get(); st.slowest = std::max(st.slowest, get());
        for (uint64_t n = get(); n--;) st.distinct.insert(get());
        for (uint64_t n = get(); n--;) { uint64_t v = get(); uint64_t l = get(); st.labels[str(l)] += v; }
        for (uint64_t n = get(); n--;) { uint64_t l = get(); auto t = str(l); if (st.samples.size() < 3) st.samples.push_back(t); }
    }

    void write_stats(double wall) {
        if (m_stats_path.empty()) return;
        std::ofstream o(m_stats_path);
        o << "{\"wall_s\": " << wall << ", \"unconfirmed\": " << m_unconfirmed
          << ", \"deadline_hit\": " << (m_deadline_hit ? "true" : "false")
          << ", \"violation\": " << (m_violation ? "true" : "false")
          << ", \"fail_facet\": \"" << json_escape(m_fail_facet) << "\""
          << ", \"fail_msg\": \"" << json_escape(m_fail_msg) << "\""
          << ", \"fail_desc\": \"" << json_escape(m_fail_desc) << "\""
          << ", \"rule\": \"" << json_escape(Registry::get().rule) << "\", \"assumptions\": [";
        bool f = true;
        for (auto& a : Registry::get().assumptions) { o << (f ? "" : ", ") << "\"" << json_escape(a) << "\""; f = false; }
        o << "], \"facets\": {";
        f = true;
        for (auto& [n, st] : m_stats) {
            o << (f ? "" : ", ") << "\"" << json_escape(n) << "\": {\"evaluations\": " << st.evals
              << ", \"nontrivial\": " << st.nontriv << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"slowest_case_ms\": " << st.slowest
              << ", \"labels\": {";
            f = false; bool g = true;
            for (auto& [l, v] : st.labels) { o << (g ? "" : ", ") << "\"" << json_escape(l) << "\": " << v; g = false; }
            o << "}, \"samples\": [";
            g = true;
            for (auto& t : st.samples) { o << (g ? "" : ", ") << "\"" << json_escape(t) << "\""; g = false; }
            o << "]}";
        }
        o << "}}\n";
    }

    uint64_t m_seed = 1; bool m_thorough = false; double m_scale = 1; int m_jobs = 8;
    std::string m_only, m_stats_path, m_replay, m_replay_out, m_variant, m_fail_msg, m_fail_desc, m_fail_facet;
    double m_deadline_s = 300; uint64_t m_case_timeout_ms = 60000; std::map<int, uint64_t> m_limit_ms;
    std::vector<Slot*> m_slots; std::vector<int> m_logs;
    std::map<std::string, FStat> m_stats;
    bool m_violation = false, m_deadline_hit = false; int m_unconfirmed = 0;
};

} // namespace pbt

// The code under test seeds its generator from std::random_device; make that
// (and with it every run) a pure function of VERIF_SEED.
#ifndef PBT_NO_RANDOM_DEVICE
unsigned int std::random_device::_M_getval() { return unsigned(pbt::splitmix(pbt::entropy()) >> 16); }
#endif

#define PBT_PROPERTY(id, nontrivial_rule)                                          \
    static void pbt_setup();                                                       \
    int main(int argc, char** argv) {                                              \
        pbt::Registry::get().property = id;                                        \
        pbt::Registry::get().rule = nontrivial_rule;                               \
        pbt_setup();                                                               \
        return pbt::Runner(argc, argv).main();                                     \
    }                                                                              \
    static void pbt_setup()
