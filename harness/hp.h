// Binding of mc.h to hpGEM: the library's fatal errors become C++ exceptions, its chatter is silenced.
#ifndef VERIF_HP_H
#define VERIF_HP_H
#include "mc.h"
#include "Logger.h"
namespace hp {
inline void quiet() {
    static hpgem::LoggerOutput o;
    auto thrower = [](std::string, std::string msg) { throw mc::Fatal{msg}; };
    auto ignore = [](std::string, std::string) {};
    o.onFatal = thrower;
    o.onError = thrower;
    o.onFail = thrower;
    o.onWarn = ignore;
    o.onInfo = ignore;
    o.onVerbose = ignore;
    o.onDebug = ignore;
    hpgem::loggerOutput = &o;
}
}  // namespace hp
#endif
