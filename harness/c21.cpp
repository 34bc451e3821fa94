// C21: every argument list is either parsed exactly as written or rejected; likewise point coordinates.
#include "hp.h"
#include "Base/CommandLineOptions.h"
#include "Base/CommandLineHelpers.h"
#include <cmath>
#include <climits>
#include <regex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hpgem;

// the options under test; registered before parsing, as an application would
static auto& oInt = Base::register_argument<int>('i', "int", "an int", false, 11);
static auto& oUns = Base::register_argument<std::size_t>('u', "size", "a size", false, 12);
static auto& oUns32 = Base::register_argument<unsigned>('\0', "unsigned", "an unsigned", false, 17);
static auto& oDbl = Base::register_argument<double>('d', "double", "a double", false, 1.25);
static auto& oStr = Base::register_argument<std::string>('s', "string", "a string", false, "default");
static auto& oFlag = Base::register_argument<bool>('f', "flag", "a flag", false, false);
static auto& oFlag2 = Base::register_argument<bool>('g', "other", "a flag", false, false);
static auto& oOn = Base::register_argument<bool>('\0', "on", "a flag that is on by default", false, true);
// a second option with a taken short and a taken long tag: the first registration keeps them
static auto& oDup = Base::register_argument<int>('i', "dup", "shares its short tag", false, 13);
static auto& oDup2 = Base::register_argument<int>('k', "int", "shares its long tag", false, 14);

struct Out {
    int status;  // 0: not finished, 1: accepted, 2: rejected
    int i, dup, dup2;
    std::size_t u;
    unsigned u32;
    double d;
    char s[64];
    bool f, g, on;
    bool used[11];
    bool untouched, done;
    char why[200];
};
static bool intTok(const std::string& t, long long& v, bool& overflow) {
    static const std::regex re("[ \t]*[+-]?[0-9]+");
    if (!std::regex_match(t, re)) return false;
    errno = 0;
    v = strtoll(t.c_str(), nullptr, 10);
    overflow = errno == ERANGE;
    return true;
}
// reference parser; returns false if the list has to be rejected
static bool reference(const std::vector<std::string>& arg, bool required, Out& o, std::size_t& end) {
    o = Out();
    o.i = 11;
    o.u = 12;
    o.u32 = 17;
    o.dup = 13;
    o.dup2 = 14;
    o.d = 1.25;
    strcpy(o.s, "default");
    o.on = true;
    auto assign = [&](int which, const std::string* value) {
        long long v;
        bool over = false;
        o.used[which] = true;
        switch (which) {
            case 0:
            case 8:
            case 9:
                if (!intTok(*value, v, over) || over || v < INT_MIN || v > INT_MAX) return false;
                (which == 0 ? o.i : which == 8 ? o.dup : o.dup2) = v;
                return true;
            case 1:
            case 2: {
                if (!intTok(*value, v, over) || value->find('-') != std::string::npos) return false;
                errno = 0;
                unsigned long long w = strtoull(value->c_str(), nullptr, 10);
                if (errno == ERANGE || (which == 2 && w > UINT_MAX)) return false;
                if (which == 1)
                    o.u = w;
                else
                    o.u32 = w;
                return true;
            }
            case 3: {
                static const std::regex re("[ \t]*[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
                if (!std::regex_match(*value, re)) return false;
                double d = strtod(value->c_str(), nullptr);
                if (std::isinf(d)) return false;
                o.d = d;
                return true;
            }
            case 4: strcpy(o.s, value->c_str()); return true;
            case 5: o.f = true; return true;
            case 6: o.g = true; return true;
            case 7: o.on = true; return true;
        }
        return false;
    };
    static const std::map<std::string, int> longs = {{"int", 0}, {"size", 1}, {"unsigned", 2}, {"double", 3}, {"string", 4}, {"flag", 5}, {"other", 6}, {"on", 7}, {"dup", 8}, {"required", 10}};
    static const std::map<char, int> shorts = {{'i', 0}, {'u', 1}, {'d', 3}, {'s', 4}, {'f', 5}, {'g', 6}, {'k', 9}};
    auto hasValue = [](int w) { return w < 5 || w == 8 || w == 9; };
    std::size_t p = 0;
    bool ended = false;
    while (p < arg.size()) {
        const std::string& t = arg[p];
        if (t.size() < 2 || t[0] != '-') return false;
        if (t == "--") {
            ended = true;
            break;
        }
        if (t[1] == '-') {
            auto it = longs.find(t.substr(2));
            if (it == longs.end() || (it->second == 10 && !required)) return false;
            if (it->second == 10) {
                o.used[10] = true;
            } else if (hasValue(it->second)) {
                if (p + 1 >= arg.size()) return false;
                if (!assign(it->second, &arg[++p])) return false;
            } else if (!assign(it->second, nullptr))
                return false;
        } else {
            for (std::size_t c = 1; c < t.size(); ++c) {
                auto it = shorts.find(t[c]);
                if (it == shorts.end()) return false;
                if (hasValue(it->second)) {
                    if (c + 1 < t.size() || p + 1 >= arg.size()) return false;
                    if (!assign(it->second, &arg[++p])) return false;
                    break;
                }
                assign(it->second, nullptr);
            }
        }
        ++p;
    }
    if (required && !o.used[10]) return false;
    o.done = ended;
    end = p;
    return true;
}

static void parseCase(const std::vector<std::string>& tokens, bool required) {
    static Out* shared = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string text = required ? "required:" : "";
    for (auto& t : tokens) text += " '" + t + "'";
    mc::note(text);
    mc::step(tokens.size() + 1);
    *shared = Out();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {  // a process parses its arguments once
        alarm(20);
        freopen("/dev/null", "w", stdout);
        freopen("/dev/null", "w", stderr);
        auto* req = required ? &Base::register_argument<bool>('\0', "required", "has to be given", true, false) : nullptr;
        std::vector<std::vector<char>> store(1, {'p', 'r', 'o', 'g', 0});
        for (auto& t : tokens) {
            store.emplace_back(t.begin(), t.end());
            store.back().push_back(0);
        }
        auto before = store;
        std::vector<char*> argv;
        for (auto& s : store) argv.push_back(s.data());
        argv.push_back(nullptr);
        auto given = argv;
        try {
            if (Base::parse_isDone()) _exit(33);
            Base::parse_options((int)tokens.size() + 1, argv.data());
            if (!Base::parse_isDone()) _exit(34);
            Out& o = *shared;
            o.i = oInt.getValue();
            o.u = oUns.getValue();
            o.u32 = oUns32.getValue();
            o.d = oDbl.getValue();
            strncpy(o.s, oStr.getValue().c_str(), 63);
            o.f = oFlag.getValue();
            o.g = oFlag2.getValue();
            o.on = oOn.getValue();
            o.dup = oDup.getValue();
            o.dup2 = oDup2.getValue();
            bool u[] = {oInt.isUsed(), oUns.isUsed(), oUns32.isUsed(), oDbl.isUsed(), oStr.isUsed(), oFlag.isUsed(), oFlag2.isUsed(), oOn.isUsed(), oDup.isUsed(), oDup2.isUsed(), req && req->isUsed()};
            std::copy(u, u + 11, o.used);
            // the texts are not modified, and everything after the terminator keeps its place
            o.untouched = store == before && argv[0] == given[0];
            std::size_t t = std::find(tokens.begin(), tokens.end(), "--") - tokens.begin();
            (void)t;
            for (std::size_t k = 0; k < tokens.size(); ++k)
                if (argv[k + 1] != given[k + 1]) o.why[k] = 1;  // a moved entry
            o.status = 1;
        } catch (mc::Fatal& f) {
            strncpy(shared->why, f.msg.c_str(), 199);
            shared->status = 2;
        } catch (...) {
            shared->status = 3;
        }
        _exit(0);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid) _exit(71);
    Out want;
    std::size_t end = 0;
    bool ok = reference(tokens, required, want, end);
    Out& got = *shared;
    bool rejected = got.status == 2 || (got.status == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 1);
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 33) mc::fail("parse_isDone does not tell whether the arguments have been parsed");
    mc::require(rejected || got.status == 1, "parsing ended neither normally nor with a reported error");
    mc::state((required ? "r" : "p") + text);
    mc::outcome(rejected ? "rejected" : "accepted" + std::to_string(got.i) + got.s);
    if (!ok) {
        mc::require(rejected, "a malformed argument list is accepted");
        mc::count("rejected");
        return;
    }
    mc::require(!rejected, "a well formed argument list is rejected: " + std::string(got.why));
    mc::require(got.i == want.i, "int option: wrong value " + std::to_string(got.i));
    mc::require(got.u == want.u, "size option: wrong value " + std::to_string(got.u));
    mc::require(got.u32 == want.u32, "unsigned option: wrong value " + std::to_string(got.u32));
    mc::require(got.d == want.d, "double option: wrong value " + std::to_string(got.d));
    mc::require(std::string(got.s) == want.s, "string option: wrong value " + std::string(got.s));
    mc::require(got.f == want.f && got.g == want.g && got.on == want.on, "flag: wrong value");
    mc::require(got.dup == want.dup && got.dup2 == want.dup2, "option with a taken tag: wrong value");
    for (int k = 0; k < 11; ++k) mc::require(got.used[k] == want.used[k], "option reported as used when it was not, or the reverse");
    mc::require(got.untouched, "an argument text was modified");
    for (std::size_t k = 0; k < tokens.size(); ++k) mc::require(got.why[k] == 0 || (want.done && k == end), "an argument was moved");
    mc::count("accepted");
}

static const std::vector<std::string> OPT = {"-i", "--int", "-u", "--unsigned", "-d", "--double", "-s", "--string", "-f", "--flag", "--other", "--on", "-k", "--dup", "--", "-fg", "-gi", "-if", "-fsg", "--size"};
static const std::vector<std::string> JUNK = {"-", "", "plain", "--nope", "-x", "--int=3", "---", "-?", "--help", "--Int", "-I", "--in", "-fx", "--crashOnWarn "};
static const std::vector<std::string> VAL = {"0", "7", "-3", "+4", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1.5", "-.5", "1.", "1e3", "1e", "1e+", "1e400", "-", "", " 5", "5 ", "5a", "abc", "0x10", "-1", "--", "--flag", "-f", "1,5", ".", "+", "--5", "1e-3", "nan", "inf", "1 2"};

// ---- points
template <std::size_t DIM>
static void point(const std::string& text, std::size_t start) {
    LinearAlgebra::SmallVector<DIM> p;
    for (std::size_t i = 0; i < DIM; ++i) p[i] = -77;
    std::vector<double> want;
    std::size_t pos = start;
    bool ok = true;
    for (std::size_t i = 0; i < DIM && ok; ++i) {
        // longest number at pos (white space may precede it)
        std::size_t q = pos;
        while (q < text.size() && text[q] == ' ') ++q;
        std::size_t b = q;
        if (q < text.size() && (text[q] == '-' || text[q] == '+')) ++q;
        std::size_t digits = 0;
        while (q < text.size() && isdigit(text[q])) ++q, ++digits;
        if (q < text.size() && text[q] == '.' && (digits || (q + 1 < text.size() && isdigit(text[q + 1])))) {
            ++q;
            while (q < text.size() && isdigit(text[q])) ++q, ++digits;
        }
        if (!digits) {
            ok = false;
            break;
        }
        if (q < text.size() && text[q] == 'e') {
            std::size_t e = q + 1;
            if (e < text.size() && (text[e] == '-' || text[e] == '+')) ++e;
            if (e < text.size() && isdigit(text[e])) {
                while (e < text.size() && isdigit(text[e])) ++e;
                q = e;
            }
        }
        double v = strtod(text.substr(b, q - b).c_str(), nullptr);
        if (std::isinf(v) || (v != 0 && std::abs(v) < 1e-300)) return;  // out of range: any refusal will do
        bool zeroMantissa = true;
        for (std::size_t k = b; k < q && text[k] != 'e'; ++k) zeroMantissa = zeroMantissa && (!isdigit(text[k]) || text[k] == '0');
        if (v == 0 && !zeroMantissa) return;
        want.push_back(v);
        pos = q;
        if (i + 1 < DIM) {
            if (pos >= text.size() || text[pos] != ',') ok = false;
            ++pos;
        }
    }
    mc::step();
    bool rejected = false;
    std::size_t end = 0;
    try {
        end = Base::parsePoint<DIM>(text, start, p);
    } catch (mc::Fatal&) {
        rejected = true;
    } catch (std::exception&) {
        rejected = true;
    }
    if (!ok) {
        mc::require(rejected, "malformed coordinates '" + text + "' accepted");
        return;
    }
    mc::require(!rejected, "coordinates '" + text + "' rejected");
    mc::require(end == pos, "coordinates '" + text + "': parsing stopped at " + std::to_string(end) + " instead of " + std::to_string(pos));
    for (std::size_t i = 0; i < DIM; ++i) mc::require(p[i] == want[i], "coordinates '" + text + "': wrong value");
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 3;
    return mc::run([&] {
        switch (mc::choose(4, "part")) {
            case 0: {  // every option x every value, alone, twice, before and after another option
                bool required = false;
                std::vector<std::string> t;
                t.push_back(OPT[mc::choose(OPT.size(), "option")]);
                int first = mc::choose(VAL.size(), "value");
                t.push_back(VAL[first]);
                if (mc::choose(2, "more")) {
                    t.push_back(OPT[mc::choose(OPT.size(), "option")]);
                    if ((mc::thorough() || first < 3 || VAL[first] == "--") && mc::choose(2, "more")) t.push_back(VAL[mc::choose(VAL.size(), "value")]);
                }
                parseCase(t, required);
                break;
            }
            case 1: {  // every list of up to 3 (thorough 4) tokens
                static const std::vector<std::string> some = [] {
                    std::vector<std::string> v = OPT;
                    v.insert(v.end(), JUNK.begin(), JUNK.end());
                    for (const char* s : {"7", "-3", "1.5", "abc", "1e"}) v.push_back(s);
                    return v;
                }();
                int n = mc::choose(mc::tier(4, 5), "length");
                std::vector<std::string> t;
                for (int k = 0; k < n; ++k) t.push_back(some[mc::choose(some.size(), "token")]);
                parseCase(t, false);
                break;
            }
            case 2: {  // a required option, lists of up to 4 (thorough 5) tokens over a smaller alphabet, terminators
                static const std::vector<std::string> some = {"--required", "-i", "5", "--string", "-f", "--", "x", "--unknown"};
                int n = mc::choose(mc::tier(5, 6), "length");
                bool req = mc::choose(2, "required");
                std::vector<std::string> t;
                for (int k = 0; k < n; ++k) t.push_back(some[mc::choose(some.size(), "token")]);
                parseCase(t, req);
                break;
            }
            default: {  // coordinates: every text up to a length
                static const std::string alpha = "19.-,e ;0+";
                int L = mc::tier(6, 7);
                std::string head;
                for (int k = 0; k < 3; ++k) {
                    int c = mc::choose(alpha.size() + 1, "char");
                    if (c == (int)alpha.size()) break;
                    head += alpha[c];
                }
                mc::note("texts starting with '" + head + "'");
                std::function<void(std::string)> rec = [&](std::string s) {
                    point<1>(s, 0);
                    point<2>(s, 0);
                    point<3>(s, 0);
                    point<2>("x," + s, 2);
                    if (head.size() < 3 || (int)s.size() >= L) return;
                    for (char c : alpha) rec(s + c);
                };
                rec(head);
                for (const char* s : {"1,2,3", "1.5,-2e-3,.25;4", "1,2", "1,,2", "1;2", " 1, 2, 3", "-1e2,+3.,0,5", "1e,2,3"}) {
                    point<1>(head + s, head.size());
                    point<2>(head + s, head.size());
                    point<3>(head + s, head.size());
                    point<4>(head + s, head.size());
                }
                mc::state("text" + head);
            }
        }
    });
}
