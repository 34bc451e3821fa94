#ifndef VERIF_MCMPI_H
#define VERIF_MCMPI_H
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
namespace mcmpi {
// flat binary serialisation used for rank results
struct Blob {
    std::string s;
    std::size_t p = 0;
    Blob() {}
    explicit Blob(std::string x) : s(std::move(x)) {}
    void raw(const void* d, std::size_t n) { s.append((const char*)d, n); }
    void i(std::int64_t v) { raw(&v, 8); }
    void d(double v) { raw(&v, 8); }
    void str(const std::string& v) {
        i((std::int64_t)v.size());
        s += v;
    }
    void get(void* d, std::size_t n) {
        if (p + n > s.size()) throw std::string("blob underrun");
        std::memcpy(d, s.data() + p, n);
        p += n;
    }
    std::int64_t gi() {
        std::int64_t v;
        get(&v, 8);
        return v;
    }
    double gd() {
        double v;
        get(&v, 8);
        return v;
    }
    std::string gstr() {
        std::int64_t n = gi();
        if (n < 0 || p + n > s.size()) throw std::string("blob underrun");
        std::string r = s.substr(p, n);
        p += n;
        return r;
    }
    bool end() const { return p == s.size(); }
};
struct Options {
    int mode = 0;  // 0: eager sends, minimal collectives; 1: rendezvous sends, synchronising collectives, other reduction order
    int maxDeviations = 1000;  // from the default (lowest source first) order
    int rankSeconds = 40;
};
struct Stats {
    std::uint64_t schedules = 0, transitions = 0, decisions = 0, messages = 0;
    bool capped = false;
};
// Runs body(rank) in P processes for every outcome of the wildcard receives; check gets the P results of each schedule.
// Throws mc::Violation on deadlock, mismatch, misuse, crash or if check does.
Stats explore(int P, const Options& o, const std::function<std::string(int)>& body,
              const std::function<void(const std::vector<std::string>&)>& check);
int rank();  // in a rank process
}  // namespace mcmpi
#endif
