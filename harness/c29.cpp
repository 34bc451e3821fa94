// C29: log messages are formatted and routed faithfully, and errors stop the program.
#include "hp.h"
#include "Logger.h"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace hpgem;
struct Call {
    int handler;
    std::string module, message;
};
static std::vector<Call> calls;
struct Failed {};
static void record() {
    calls.clear();
    auto h = [](int k) { return [k](std::string m, std::string t) { calls.push_back({k, m, t}); }; };
    loggerOutput->onFatal = h(0);
    loggerOutput->onError = h(1);
    loggerOutput->onWarn = h(2);
    loggerOutput->onInfo = h(3);
    loggerOutput->onVerbose = h(4);
    loggerOutput->onDebug = h(5);
    loggerOutput->onFail = [](std::string m, std::string t) {
        calls.push_back({6, m, t});
        throw Failed();
    };
}
static const char* handlerName[] = {"onFatal", "onError", "onWarn", "onInfo", "onVerbose", "onDebug", "onFail"};
static void expect(const std::string& what, std::vector<Call> want) {
    mc::step();
    if (calls.size() != want.size()) {
        std::string s;
        for (auto& c : calls) s += mc::str(" ", handlerName[c.handler], " '", c.message, "'");
        mc::fail(what, ": ", calls.size(), " messages instead of ", want.size(), ":", s);
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
        if (calls[i].handler != want[i].handler) mc::fail(what, ": sent to ", handlerName[calls[i].handler], " instead of ", handlerName[want[i].handler]);
        if (calls[i].module != want[i].module) mc::fail(what, ": module '", calls[i].module, "' instead of '", want[i].module, "'");
        if (calls[i].message != want[i].message) mc::fail(what, ": message '", calls[i].message, "' instead of '", want[i].message, "'");
    }
    calls.clear();
}
// a placeholder takes the next argument, a backslash protects the next character, messages without arguments are plain text
static std::string reference(const std::string& f, const std::vector<std::string>& args) {
    if (args.empty()) return f;
    std::string r;
    std::size_t next = 0;
    for (std::size_t i = 0; i < f.size(); ++i) {
        if (f[i] == '\\') {
            if (++i < f.size()) r += f[i];
        } else if (f[i] == '%' && next < args.size())
            r += args[next++];
        else
            r += f[i];
    }
    return r;
}
static std::vector<std::string> texts(int n) {
    std::vector<std::string> all{"42", "%", "x%y\\z"};
    all.resize(n);
    return all;
}
// calls f with n arguments of different types
template <class F>
static void withArguments(int n, F f) {
    int a = 42;
    std::string c = "x%y\\z";
    if (n == 0) f();
    if (n == 1) f(a);
    if (n == 2) f(a, '%');
    if (n == 3) f(a, '%', c);
}
template <class L>
static void routes(L& log, const std::string& module, const std::string& format, int n, bool asserts) {
    std::string want = reference(format, texts(n));
    auto what = [&](const char* route) { return mc::str(route, " \"", format, "\" with ", n, " arguments"); };
    record();
    withArguments(n, [&](auto&&... x) { log(WARN, format.c_str(), x...); });
    expect(what("message"), {{2, module, want}});
    std::string copy = format;
    withArguments(n, [&](auto&&... x) { log(FATAL, copy, x...); });
    expect(what("message (string)"), {{0, module, want}});
    withArguments(n, [&](auto&&... x) { log.log(Log::ERROR, format, x...); });
    expect(what("log"), {{1, module, want}});
    withArguments(n, [&](auto&&... x) { log.assert_always(false, format.c_str(), x...); });
    expect(what("failed assert_always"), {{0, module, want}});
    withArguments(n, [&](auto&&... x) { log.assert_always(false, format, x...); });
    expect(what("failed assert_always (string)"), {{0, module, want}});
    withArguments(n, [&](auto&&... x) { log.assert_debug(false, format.c_str(), x...); });
    expect(what("failed assert_debug"), asserts ? std::vector<Call>{{0, module, want}} : std::vector<Call>{});
    withArguments(n, [&](auto&&... x) { log.assert_debug(false, format, x...); });
    expect(what("failed assert_debug (string)"), asserts ? std::vector<Call>{{0, module, want}} : std::vector<Call>{});
    withArguments(n, [&](auto&&... x) {
        log.assert_always(true, format.c_str(), x...);
        log.assert_always(true, format, x...);
        log.assert_debug(true, format.c_str(), x...);
        log.assert_debug(true, format, x...);
    });
    expect(what("satisfied assertion"), {});
    for (int k = 0; k < 2; ++k) {
        bool returned = true;
        withArguments(n, [&](auto&&... x) {
            try {
                k ? log.fail(format, x...) : log.fail(format.c_str(), x...);
            } catch (Failed&) {
                returned = false;
            }
        });
        if (returned) mc::fail("fail returned");
        expect(what("fail"), {{6, module, want}});
    }
}
static const Log levels[] = {Log::FATAL, Log::ERROR, Log::WARN, Log::INFO, Log::DEFAULT, Log::VERBOSE, Log::DEBUG};
static const int handlerOf[] = {0, 1, 2, 3, 4, 4, 5};
template <class L>
static void send(L& log, int level, int route) {
    if (route == 1) {
        log.log(levels[level], "value %", 7);
        return;
    }
    std::string f = "value %";
    switch (level) {
#define SEND(k, T) \
    case k: route == 2 ? log(T, f, 7) : log(T, "value %", 7); break;
        SEND(0, FATAL)
        SEND(1, ERROR)
        SEND(2, WARN)
        SEND(3, INFO)
        SEND(4, DEFAULT)
        SEND(5, VERBOSE)
        SEND(6, DEBUG)
    }
}
template <Log L>
static void level(int l, int route) {
    Logger<L> log("part");
    record();
    send(log, l, route);
    // the more talkative of the logger and the global setting decides
    bool shown = levels[l] <= L || levels[l] <= HPGEM_LOGLEVEL;
    expect(mc::str("level ", l, " at a logger of level ", int(L)), shown ? std::vector<Call>{{handlerOf[l], "part", "value 7"}} : std::vector<Call>{});
}
// the default handlers, in a process of their own
static void defaults(const LoggerOutput& def, int what, bool ignoreSignal, bool module2) {
    int out[2], err[2];
    if (pipe(out) || pipe(err)) throw mc::Fatal{"pipe"};
    std::cout << std::flush;
    std::cerr << std::flush;
    pid_t p = fork();
    if (p == 0) {
        dup2(out[1], 1);
        dup2(err[1], 2);
        close(out[0]);
        close(err[0]);
        signal(SIGTERM, ignoreSignal ? SIG_IGN : SIG_DFL);
        alarm(20);
        *loggerOutput = def;
        Logger<Log::DEBUG, true> a("first module"), b("other");
        auto& log = module2 ? b : a;
        std::cout << "before ";
        switch (what) {
            case 0: log(FATAL, "problem %", 5); break;
            case 1: log(ERROR, "problem %", 5); break;
            case 2: log.fail("problem %", 5); break;
            case 3: log.assert_always(false, "problem %", 5); break;
            case 4: log.assert_debug(false, "problem %", 5); break;
            case 5: log(WARN, "problem %", 5); break;
            case 6: log(INFO, "problem %", 5); break;
            case 7: log(VERBOSE, "problem %", 5); break;
            case 8: log(DEBUG, "problem %", 5); break;
            case 9: log(DEFAULT, "problem %", 5); break;
        }
        std::cout << "after" << std::flush;
        _exit(0);
    }
    close(out[1]);
    close(err[1]);
    auto all = [](int fd) {
        std::string r;
        char b[512];
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
        close(fd);
        return r;
    };
    std::string o = all(out[0]), e = all(err[0]);
    int st = 0;
    waitpid(p, &st, 0);
    mc::step();
    auto has = [](const std::string& s, const char* t) { return s.find(t) != std::string::npos; };
    const char* m = module2 ? "other" : "first module";
    if (what < 5) {
        if (has(o, "after")) mc::fail("the program goes on after an error");
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) mc::fail("the program ends with success after an error");
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGTERM) mc::fail("the program ends with signal ", WTERMSIG(st), " after an error");
        if (!has(e, "problem 5") || !has(e, m)) mc::fail("the error is not shown with its module: '", e, "'");
        if (!has(o, "before")) mc::fail("output before the error is lost");
    } else {
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !has(o, "after")) mc::fail("the program does not go on after a message");
        if (!has(o, "problem 5")) mc::fail("the message is not shown: '", o, "'");
        if ((what == 5 || what == 8) && !has(o, m)) mc::fail("the message is shown without its module");
        if (!e.empty()) mc::fail("a message is shown as an error: '", e, "'");
    }
}
// histories of suppressing warnings (nested) and sending messages
static Logger<Log::DEBUG, true> hist("history");
static std::vector<Call> wanted;
static void history(int depth, int budget, int suppressed, int& left) {
    while (left > 0) {
        int op = mc::choose(depth ? 4 : 3, "op");
        --left;
        if (op == 0) {
            hist(WARN, "warning %", left);
            if (!suppressed) wanted.push_back({2, "history", mc::str("warning ", left)});
        } else if (op == 1) {
            hist(INFO, "info %", left);
            wanted.push_back({3, "history", mc::str("info ", left)});
        } else if (op == 2)
            hist.suppressWarnings([&] { history(depth + 1, budget, suppressed + 1, left); });
        else
            return;
    }
}
int main(int argc, char** argv) {
    mc::init(argc, argv);
    LoggerOutput def = *loggerOutput;
    hp::quiet();
    LoggerOutput quiet = *loggerOutput;
    mc::S().splitDepth = 3;
    return mc::run([&] {
        *loggerOutput = quiet;
        struct Restore {
            LoggerOutput& q;
            ~Restore() { *loggerOutput = q; }
        } restore{quiet};
        switch (mc::choose(4, "part")) {
            case 0: {
                int n = mc::choose(4, "arguments");
                int len = mc::choose(mc::tier(7, 9), "length");
                std::string f;
                for (int i = 0; i < len; ++i) f += "a%\\"[mc::choose(3, "character")];
                std::size_t tail = 0;
                while (tail < f.size() && f[f.size() - 1 - tail] == '\\') ++tail;
                if (n && tail % 2) throw mc::Prune();  // what a backslash at the very end means is not specified
                mc::state(f + mc::str(n));
                static Logger<Log::DEBUG, true> a("strict");
                static Logger<Log::FATAL, false> b("lenient");
                routes(a, "strict", f, n, true);
                routes(b, "lenient", f, n, false);
                break;
            }
            case 1: {
                int l = mc::choose(7, "message level"), route = mc::choose(3, "route");
                switch (mc::choose(7, "logger level")) {
                    case 0: level<Log::FATAL>(l, route); break;
                    case 1: level<Log::ERROR>(l, route); break;
                    case 2: level<Log::WARN>(l, route); break;
                    case 3: level<Log::INFO>(l, route); break;
                    case 4: level<Log::DEFAULT>(l, route); break;
                    case 5: level<Log::VERBOSE>(l, route); break;
                    case 6: level<Log::DEBUG>(l, route); break;
                }
                break;
            }
            case 2: {
                int what = mc::choose(10, "what"), ign = mc::choose(2, "signal ignored"), m = mc::choose(2, "module");
                defaults(def, what, ign, m);
                break;
            }
            case 3: {
                record();
                wanted.clear();
                int left = mc::tier(6, 8);
                history(0, left, 0, left);
                expect("history", wanted);
                hist(WARN, "at the end");
                expect("after the history", {{2, "history", "at the end"}});
            }
        }
    });
}
