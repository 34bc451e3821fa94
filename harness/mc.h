// Bounded exhaustive exploration of real code: every nondeterministic decision of a harness (operation, argument,
// configuration, environment answer) is a call to mc::choose(n).  mc::run() executes the body once for every sequence
// of answers (depth first), so the set of executions is the complete tree of choices, not a sample.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
    std::string msg;
};
struct Fatal {  // the library reported a fatal error / failed assertion
    std::string msg;
};
struct Prune {};

inline std::string jsonEscape(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

struct State {
    bool thorough = false;
    unsigned shard = 0, nshards = 1;
    unsigned splitDepth = 2;
    unsigned caseSeconds = 60;
    std::string out;
    bool replaying = false;
    std::vector<int> forced;

    std::vector<int> choice, arity;
    std::size_t pos = 0;
    std::uint64_t prefixCounter = 0;
    std::vector<std::string> trace;

    std::uint64_t evaluations = 0, transitions = 0, pruned = 0;
    std::unordered_set<std::uint64_t> states, outcomes;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    struct V {
        std::string choices, trace, msg, key;
    };
    std::vector<V> violations;
    std::set<std::string> knownKeys;
    std::map<std::string, std::uint64_t> knownHits;
    std::string key;  // key of the current execution, for known findings
    bool keyDetail = false;  // the key of a violation includes what exactly was observed
    char* status = nullptr;  // int32: count, choices...
    std::size_t statusSize = 1 << 16;
    std::size_t maxViolations = std::getenv("MC_MAXV") ? std::atoi(std::getenv("MC_MAXV")) : 3;
    bool nontrivial = true;
};
inline State& S() {
    static State s;
    return s;
}

inline bool thorough() { return S().thorough; }
template <class T>
inline T tier(T quick, T deep) {
    return S().thorough ? deep : quick;
}

inline void writeStatus() {  // the choices made so far, in a shared mapping that survives a crash
    State& s = S();
    if (!s.status) return;
    std::int32_t* p = (std::int32_t*)s.status;
    std::size_t n = std::min(s.pos, s.statusSize / 4 - 2);
    p[0] = (std::int32_t)n;
    if (n) p[n] = s.choice[n - 1];
}

inline int choose(int n, const char* label = nullptr) {
    State& s = S();
    if (n <= 0) throw Prune();
    if (s.replaying) {
        if (s.pos >= s.forced.size()) {
            s.forced.push_back(0);
        }
        if (s.forced[s.pos] >= n) {
            std::cerr << "replay diverged\n";
            std::_Exit(70);
        }
        s.choice.resize(s.pos);
        s.choice.push_back(s.forced[s.pos]);
        s.arity.resize(s.pos);
        s.arity.push_back(n);
    } else if (s.pos == s.choice.size()) {
        s.choice.push_back(0);
        s.arity.push_back(n);
    } else if (s.arity[s.pos] != n) {
        std::cerr << "harness error: exploration is not deterministic at choice " << s.pos << "\n";
        std::_Exit(71);
    }
    int c = s.choice[s.pos++];
    writeStatus();
    if (label) s.trace.push_back(std::string(label) + "=" + std::to_string(c));
    if (!s.replaying && s.pos == s.splitDepth) {
        // choices beyond the split depth belong to one shard
        static std::vector<int> last;
        std::vector<int> now(s.choice.begin(), s.choice.begin() + s.pos);
        if (now != last) {
            last = now;
            ++s.prefixCounter;
        }
        if ((s.prefixCounter - 1) % s.nshards != s.shard) throw Prune();
    }
    return c;
}
template <class T>
inline const T& pick(const std::vector<T>& v, const char* label = nullptr) {
    return v[choose((int)v.size(), label)];
}
inline void note(const std::string& t) { S().trace.push_back(t); }
template <class A, class... R>
inline void cat(std::ostringstream& o, A&& a, R&&... r) {
    o << a;
    int d[] = {0, ((void)(o << r), 0)...};
    (void)d;
}
template <class... A>
inline std::string str(A&&... a) {
    std::ostringstream o;
    o.precision(17);
    cat(o, a...);
    return o.str();
}
inline void step(std::uint64_t n = 1) { S().transitions += n; }
inline void count(const std::string& k, std::uint64_t n = 1) { S().counters[k] += n; }
inline void trivial() { S().nontrivial = false; }
inline void setKey(const std::string& k) { S().key = k; }

inline std::uint64_t hashBytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (std::size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline std::uint64_t hashString(const std::string& s, std::uint64_t h = 1469598103934665603ull) {
    return hashBytes(s.data(), s.size(), h);
}
inline void state(std::uint64_t h) { S().states.insert(h); }
inline void state(const std::string& s) { S().states.insert(hashString(s)); }
inline void outcome(const std::string& s) { S().outcomes.insert(hashString(s)); }

template <class... A>
[[noreturn]] inline void fail(A&&... a) {
    throw Violation{str(a...)};
}
template <class... A>
inline void require(bool ok, A&&... a) {
    if (!ok) fail(a...);
}
inline bool close(double a, double b, double tol = 1e-10) {
    return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
template <class... A>
inline void requireClose(double a, double b, double tol, A&&... x) {
    if (!(close(a, b, tol))) fail(str(x...), ": got ", a, ", expected ", b);
}

inline void onSignal(int sig) { std::_Exit(100 + sig); }

inline bool advance() {
    State& s = S();
    s.choice.resize(s.pos);
    s.arity.resize(s.pos);
    while (!s.choice.empty()) {
        if (++s.choice.back() < s.arity.back()) return true;
        s.choice.pop_back();
        s.arity.pop_back();
    }
    return false;
}
inline void writeOut() {
    State& s = S();
    std::ofstream f(s.out);
    f << "{\"evaluations\":" << s.evaluations << ",\"transitions\":" << s.transitions << ",\"pruned\":" << s.pruned
      << ",\"counters\":{";
    bool first = true;
    for (auto& c : s.counters) {
        f << (first ? "" : ",") << jsonEscape(c.first) << ":" << c.second;
        first = false;
    }
    f << "},\"known\":{";
    first = true;
    for (auto& c : s.knownHits) {
        f << (first ? "" : ",") << jsonEscape(c.first) << ":" << c.second;
        first = false;
    }
    f << "},\"samples\":[";
    first = true;
    for (auto& c : s.samples) {
        f << (first ? "" : ",") << jsonEscape(c);
        first = false;
    }
    f << "],\"violations\":[";
    first = true;
    for (auto& v : s.violations) {
        f << (first ? "" : ",") << "{\"choices\":" << jsonEscape(v.choices) << ",\"trace\":" << jsonEscape(v.trace)
          << ",\"msg\":" << jsonEscape(v.msg) << ",\"key\":" << jsonEscape(v.key) << "}";
        first = false;
    }
    f << "]}\n";
    f.close();
    auto dump = [&](const std::string& ext, const std::unordered_set<std::uint64_t>& set) {
        std::ofstream g(s.out + ext, std::ios::binary);
        for (auto h : set) g.write((const char*)&h, sizeof h);
    };
    dump(".states", s.states);
    dump(".outcomes", s.outcomes);
}
inline std::string joinChoices() {
    State& s = S();
    std::ostringstream o;
    for (std::size_t i = 0; i < s.pos; ++i) o << (i ? "," : "") << s.choice[i];
    return o.str();
}
inline std::string joinTrace() {
    std::ostringstream o;
    for (auto& t : S().trace) o << t << "; ";
    std::string r = o.str();
    if (r.size() > 3000) r = r.substr(0, 1500) + " ... " + r.substr(r.size() - 1400);
    return r;
}

// runs body for every choice sequence; returns the process exit code
inline int run(const std::function<void()>& body) {
    State& s = S();
    for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTERM}) std::signal(sig, onSignal);
    while (true) {
        s.pos = 0;
        writeStatus();
        s.trace.clear();
        s.key.clear();
        s.nontrivial = true;
        alarm(s.caseSeconds);
        bool pruned = false;
        std::string problem;
        bool bad = false;
        try {
            body();
        } catch (Prune&) {
            pruned = true;
        } catch (Violation& v) {
            bad = true;
            problem = v.msg;
        } catch (Fatal& v) {
            bad = true;
            problem = "library reported a fatal error: " + v.msg;
        } catch (std::exception& e) {
            bad = true;
            problem = std::string("unexpected exception: ") + e.what();
        }
        alarm(0);
        // a shorter choice tree than the split depth is run by shard 0 only
        if (!s.replaying && !pruned && s.pos < s.splitDepth && s.shard != 0) pruned = true, bad = false;
        if (pruned)
            ++s.pruned;
        else {
            ++s.evaluations;
            if (s.nontrivial) {
                s.counters["nontrivial"]++;
            }
            if (s.samples.size() < 3 || (s.evaluations & (s.evaluations - 1)) == 0) {
                if (s.samples.size() >= 12) s.samples.erase(s.samples.begin() + 1);
                std::string t = joinTrace();
                if (t.size() > 400) t = t.substr(0, 400) + "...";
                s.samples.push_back("choices[" + joinChoices().substr(0, 200) + "] " + t);
            }
        }
        if (bad) {
            if (s.keyDetail && !s.key.empty()) s.key += ": " + (problem.find("library reported a fatal error") != std::string::npos ? "fatal error" : problem);
            if (!s.key.empty() && s.knownKeys.count(s.key)) {
                s.knownHits[s.key]++;
            } else {
                s.violations.push_back({joinChoices(), joinTrace(), problem, s.key});
                if (s.violations.size() >= s.maxViolations) break;
            }
        }
        if (s.replaying) break;
        if (!advance()) break;
    }
    writeOut();
    return s.violations.empty() ? 0 : 1;
}

inline void init(int argc, char** argv) {
    State& s = S();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--tier")
            s.thorough = next() == "thorough";
        else if (a == "--shard")
            s.shard = std::stoul(next());
        else if (a == "--nshards")
            s.nshards = std::stoul(next());
        else if (a == "--out")
            s.out = next();
        else if (a == "--known")
            s.knownKeys.insert(next());
        else if (a == "--seconds")
            s.caseSeconds = std::stoul(next());
        else if (a == "--replay") {
            s.replaying = true;
            std::stringstream ss(next());
            std::string tok;
            while (std::getline(ss, tok, ','))
                if (!tok.empty()) s.forced.push_back(std::stoi(tok));
        }
    }
    if (s.out.empty()) s.out = "/dev/null";
    if (s.out != "/dev/null") {
        std::string st = s.out + ".status";
        int fd = open(st.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, s.statusSize) == 0) {
            void* p = mmap(nullptr, s.statusSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.status = (char*)p;
            ::close(fd);
        }
    }
}
}  // namespace mc
#endif
