// Stands in for the glog-backed logger: messages are formatted (so that format mistakes are seen
// by the sanitizers) and dropped.
#include <cstdarg>
#include <cstdio>

#include "paimon/logging.h"

namespace paimon {
namespace {
class QuietLogger : public Logger {
 public:
    void LogV(PaimonLogLevel, const char*, int, const char*, const char* fmt, ...) override {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
    }
    bool IsLevelEnabled(PaimonLogLevel) const override { return true; }
};
}  // namespace
void Logger::RegisterLogger(LoggerCreator) {}
std::unique_ptr<Logger> Logger::GetLogger(const std::string&) {
    return std::make_unique<QuietLogger>();
}
}  // namespace paimon
