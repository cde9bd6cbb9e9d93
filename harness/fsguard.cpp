#include "fsguard.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <mutex>

namespace {
std::mutex& Mu() { static std::mutex* m = new std::mutex; return *m; }
std::string& Dir() { static std::string* s = new std::string; return *s; }
std::vector<std::string>& Refused() { static auto* v = new std::vector<std::string>; return *v; }
std::atomic<bool> g_on{false};
std::atomic<void (*)()> g_pause{nullptr};

bool Ok(const char* path) {
    if (!g_on.load()) return true;
    if (!path) return true;
    std::lock_guard<std::mutex> l(Mu());
    const std::string& d = Dir();
    std::string p = path;
    bool inside = p.compare(0, d.size(), d) == 0 && (p.size() == d.size() || p[d.size()] == '/') &&
                  p.find("/../") == std::string::npos && !(p.size() > 3 && p.compare(p.size() - 3, 3, "/..") == 0);
    if (inside || p.compare(0, 5, "/dev/") == 0 || p.compare(0, 6, "/proc/") == 0) return true;
    if (Refused().size() < 100) Refused().push_back(p);
    errno = EPERM;
    return false;
}
void Pause() { if (auto p = g_pause.load()) p(); }
template <typename F> F Next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
}  // namespace

namespace fsguard {
void Allow(const std::string& dir) {
    std::lock_guard<std::mutex> l(Mu());
    Dir() = dir;
    g_on = true;
}
std::vector<std::string> TakeRefused() {
    std::lock_guard<std::mutex> l(Mu());
    auto r = Refused();
    Refused().clear();
    return r;
}
void SetPause(void (*pause)()) { g_pause = pause; }
}  // namespace fsguard

extern "C" {
int unlink(const char* p) { return Ok(p) ? (int)syscall(SYS_unlink, p) : -1; }
int rmdir(const char* p) { return Ok(p) ? (int)syscall(SYS_rmdir, p) : -1; }
int remove(const char* p) {
    if (!Ok(p)) return -1;
    if (syscall(SYS_unlink, p) == 0) return 0;
    if (errno != EISDIR && errno != EPERM) return -1;
    return (int)syscall(SYS_rmdir, p);
}
int rename(const char* a, const char* b) {
    if (!Ok(a) || !Ok(b)) return -1;
    Pause();
    return (int)syscall(SYS_rename, a, b);
}
int renameat2(int fa, const char* a, int fb, const char* b, unsigned flags) {
    if (!Ok(a) || !Ok(b)) return -1;
    Pause();
    return (int)syscall(SYS_renameat2, fa, a, fb, b, flags);
}
int link(const char* a, const char* b) {
    if (!Ok(a) || !Ok(b)) return -1;
    Pause();
    return (int)syscall(SYS_link, a, b);
}
int symlink(const char* a, const char* b) { return Ok(b) ? (int)syscall(SYS_symlink, a, b) : -1; }
int mkdir(const char* p, mode_t m) { return Ok(p) ? (int)syscall(SYS_mkdir, p, m) : -1; }
int truncate(const char* p, off_t n) { return Ok(p) ? (int)syscall(SYS_truncate, p, n) : -1; }
int chmod(const char* p, mode_t m) { return Ok(p) ? (int)syscall(SYS_chmod, p, m) : -1; }
int access(const char* p, int mode) {
    int r = (int)syscall(SYS_access, p, mode);
    int e = errno;
    Pause();
    errno = e;
    return r;
}
FILE* fopen(const char* p, const char* mode) {
    if (strpbrk(mode, "wa+") && !Ok(p)) return nullptr;
    static auto f = Next<FILE* (*)(const char*, const char*)>("fopen");
    return f(p, mode);
}
FILE* fopen64(const char* p, const char* mode) {
    if (strpbrk(mode, "wa+") && !Ok(p)) return nullptr;
    static auto f = Next<FILE* (*)(const char*, const char*)>("fopen64");
    return f(p, mode);
}
}
