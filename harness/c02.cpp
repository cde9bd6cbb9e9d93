// Input streams against a plain byte array.
#include <fcntl.h>
#include <unistd.h>

#include <map>
#include <memory>

#include "paimon/common/io/offset_input_stream.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/local/local_file_system.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "vf.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
// The bytes a stream should show: either real data or a formula (for sources larger than memory).
struct Source {
    std::string data;
    uint64_t length = 0;
    bool formula = false;
    uint64_t base = 0;
    std::map<uint64_t, std::string> islands;  // of a sparse file: everything else is zero
    char At(uint64_t i) const {
        if (!islands.empty()) {
            auto it = islands.upper_bound(base + i);
            if (it == islands.begin()) return 0;
            --it;
            uint64_t k = base + i - it->first;
            return k < it->second.size() ? it->second[k] : 0;
        }
        return formula ? static_cast<char>(vf::Mix((base + i) >> 2) >> (8 * ((base + i) & 3))) : data[base + i];
    }
    Source Window(uint64_t off, uint64_t len) const {
        Source s = *this;
        s.base = base + off;
        s.length = len;
        return s;
    }
};

// Stand-in for a remote file: formula content, optional failure of the n-th call.
struct RemoteFile : InputStream {
    uint64_t len;
    int64_t pos = 0;
    mutable int64_t calls = 0;
    int64_t fail_call = -1;
    int failures = 0;
    bool short_at_end = false;  // like POSIX read: fewer bytes, finally none, at the end
    Source src;
    explicit RemoteFile(const Source& s) : len(s.length), src(s) {}
    bool Fails() {
        if (calls++ == fail_call) {
            failures++;
            return true;
        }
        return false;
    }
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t off, SeekOrigin o) override {
        if (Fails()) return Status::IOError("injected");
        int64_t p = o == FS_SEEK_SET ? off : o == FS_SEEK_CUR ? pos + off : (int64_t)len + off;
        if (p < 0 || p > (int64_t)len) return Status::Invalid("seek");
        pos = p;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (Fails()) return Status::IOError("injected");
        if (pos + (int64_t)n > (int64_t)len) {
            if (!short_at_end) return Status::IOError("past end");
            n = len - pos;
        }
        for (uint32_t i = 0; i < n; i++) b[i] = src.At(pos + i);
        pos += n;
        return (int32_t)n;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        if (Fails()) return Status::IOError("injected");
        if (off > len || n > len - off) return Status::IOError("past end");
        for (uint32_t i = 0; i < n; i++) b[i] = src.At(off + i);
        return (int32_t)n;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, n, off);
        cb(r.ok() ? Status::OK() : r.status());
    }
    Result<std::string> GetUri() const override { return std::string("remote://f"); }
    Result<uint64_t> Length() const override { return len; }
};

struct Stack {
    std::unique_ptr<char[]> raw;
    std::shared_ptr<MemoryPool> pool;
    std::shared_ptr<RemoteFile> remote;
    std::shared_ptr<InputStream> top;
    Source view;
    bool positional = true;
    bool file = false;  // a file may be positioned past its end, where nothing can be read
};

void Drive(Case& c, Stack& st, int steps, bool faulty) {
    auto& in = *st.top;
    const uint64_t L = st.view.length;
    int64_t pos = 0;
    auto resync = [&](const char* after) {
        auto p = in.GetPos();
        VF_EXPECT(p.ok(), "position-unavailable", "after %s", after);
        VF_EXPECT(p.value() >= 0 && (uint64_t)p.value() <= L, "position-outside-stream", "position %lld of %llu after %s", (long long)p.value(), (unsigned long long)L, after);
        pos = p.value();
    };
    auto pick_size = [&](uint64_t room) -> uint32_t {
        uint64_t r;
        switch (c.rng.Below(8)) {
            case 0: r = 0; break;
            case 1: r = room; break;
            case 2: r = room + 1; break;
            case 3: r = c.rng.Below(3); break;
            case 4: r = c.rng.Below(200); break;
            default: r = c.rng.Below(40);
        }
        return r > 5000 ? c.rng.Below(5000) : r;
    };
    auto edgy_pos = [&]() -> int64_t {
        switch (c.rng.Below(7)) {
            case 0: return c.rng.Range(-3, 3);
            case 1: return (int64_t)L + c.rng.Range(-3, 3);
            case 2: return c.rng.Edgy64();
            case 3: if (L > (1ull << 32)) return (1ll << 32) + c.rng.Range(-40, 40); return c.rng.Below(L + 1);
            case 4: if (L > (1ull << 31)) return (1ll << 31) + c.rng.Range(-40, 40); return c.rng.Below(L + 1);
            default: return (int64_t)c.rng.Below(L + 1);
        }
    };
    {
        auto l = in.Length();
        VF_EXPECT(l.ok() && l.value() == L, "length", "length differs from %llu", (unsigned long long)L);
        auto p = in.GetPos();
        VF_EXPECT(p.ok() && p.value() == 0, "initial-position", "initial position is not 0");
    }
    for (int s = 0; s < steps; s++) {
        int fails0 = st.remote ? st.remote->failures : 0;
        auto injected = [&] { return st.remote && st.remote->failures != fails0; };
        switch (c.rng.Below(st.positional ? 8 : 5)) {
            case 0: {  // seek
                int o = c.rng.Below(3);
                int64_t target = edgy_pos();
                int64_t off = o == 0 ? target : (int64_t)((uint64_t)target - (o == 1 ? (uint64_t)pos : L));
                if (o != 0 && (target > (1ll << 61) || target < -(1ll << 61))) break;
                bool fits = target >= 0 && (uint64_t)target <= L;
                c.Op(Fmt("seek%d %lld", o, (long long)off), true);
                Status r = in.Seek(off, o == 0 ? FS_SEEK_SET : o == 1 ? FS_SEEK_CUR : FS_SEEK_END);
                if (injected()) {
                    resync("failed seek");
                    break;
                }
                if (st.file && r.ok() && target > (int64_t)L) {
                    char one;
                    VF_EXPECT(!in.Read(&one, 1).ok(), "invalid-read-accepted", "read past the end of the file");
                    pos = c.rng.Below(L + 1);
                    VF_EXPECT(in.Seek(pos, FS_SEEK_SET).ok(), "valid-seek-refused", "seek back to %lld", (long long)pos);
                    break;
                }
                VF_EXPECT(r.ok() == fits, fits ? "valid-seek-refused" : "invalid-seek-accepted", "seek to %lld of %llu: %s", (long long)target, (unsigned long long)L, r.ToString().c_str());
                if (fits) {
                    pos = target;
                } else {
                    resync("refused seek");
                }
                break;
            }
            case 1: case 2: case 3: {  // sequential read
                uint32_t n = pick_size(L - pos);
                std::unique_ptr<char[]> b(new char[n ? n : 1]);
                bool fits = pos + (uint64_t)n <= L;
                c.Op(Fmt("read %u", n), n > 0);
                auto r = in.Read(b.get(), n);
                if (injected() && !r.ok()) {
                    resync("failed read");
                    break;
                }
                VF_EXPECT(r.ok() == fits, fits ? "valid-read-refused" : "invalid-read-accepted", "read %u at %lld of %llu: %s", n, (long long)pos, (unsigned long long)L, r.ok() ? "ok" : r.status().ToString().c_str());
                if (!fits) {
                    resync("refused read");
                    break;
                }
                VF_EXPECT((uint32_t)r.value() == n, "read-count", "read %u returned %d", n, r.value());
                for (uint32_t i = 0; i < n; i++) VF_EXPECT(b[i] == st.view.At(pos + i), "wrong-bytes", "read %u at %lld: byte %u differs", n, (long long)pos, i);
                pos += n;
                break;
            }
            case 4: {
                auto p = in.GetPos();
                c.Op("pos");
                VF_EXPECT(p.ok() && p.value() == pos, "position", "reported %lld, expected %lld", p.ok() ? (long long)p.value() : -1, (long long)pos);
                auto l = in.Length();
                VF_EXPECT(l.ok() && l.value() == L, "length", "length changed");
                break;
            }
            default: {  // positional or asynchronous read: does not move the position
                int64_t at = edgy_pos();
                if (at < 0 && c.rng.Chance(0.7)) at = -at;
                uint64_t off = (uint64_t)at;
                uint32_t n = pick_size(off <= L ? L - off : 10);
                std::unique_ptr<char[]> b(new char[n ? n : 1]);
                bool fits = off <= L && n <= L - off;
                if (st.file && n == 0 && !fits) break;
                bool async = c.rng.Chance(0.4);
                c.Op(Fmt("%s %u@%llu", async ? "async" : "pread", n, (unsigned long long)off), n > 0);
                bool ok = false;
                int calls = 0;
                int32_t got = n;
                if (async) {
                    in.ReadAsync(b.get(), n, off, [&](Status s2) { calls++; ok = s2.ok(); });
                    VF_EXPECT(calls == 1, "callback-count", "callback ran %d times", calls);
                } else {
                    auto r = in.Read(b.get(), n, off);
                    ok = r.ok();
                    if (ok) got = r.value();
                }
                if (injected() && !ok) break;
                VF_EXPECT(ok == fits, fits ? "valid-read-refused" : "invalid-read-accepted", "%s %u at %llu of %llu", async ? "async" : "pread", n, (unsigned long long)off, (unsigned long long)L);
                if (fits) {
                    VF_EXPECT((uint32_t)got == n, "read-count", "pread %u returned %d", n, got);
                    for (uint32_t i = 0; i < n; i++) VF_EXPECT(b[i] == st.view.At(off + i), "wrong-bytes", "pread %u at %llu: byte %u differs", n, (unsigned long long)off, i);
                }
                auto p = in.GetPos();
                VF_EXPECT(p.ok() && p.value() == pos, "position-moved", "positional read moved position %lld to %lld", (long long)pos, p.ok() ? (long long)p.value() : -1);
            }
        }
    }
}

void MakeBytes(Case& c, Stack& st) {
    uint64_t n = c.rng.Chance(0.1) ? 0 : c.rng.Range(1, c.rng.Chance(0.2) ? 4000 : 120);
    st.pool = GetMemoryPool();
    Source s;
    s.data = c.rng.Bytes(n);
    s.length = n;
    st.raw.reset(new char[n ? n : 1]);
    memcpy(st.raw.get(), s.data.data(), n);
    st.view = s;
    st.top = std::make_shared<ByteArrayInputStream>(st.raw.get(), n);
}
void MakeRemote(Case& c, Stack& st, bool huge) {
    st.pool = GetMemoryPool();
    Source s;
    s.formula = true;
    s.base = c.rng.U64() >> 8;
    s.length = huge ? (1ull << 31) + (c.rng.Below(8) << 30) + c.rng.Below(1000) : c.rng.Range(0, 3000);
    st.view = s;
    st.remote = std::make_shared<RemoteFile>(s);
    st.top = st.remote;
}
void AddWindow(Case& c, Stack& st) {
    uint64_t L = st.view.length;
    uint64_t off = c.rng.Chance(0.3) ? 0 : c.rng.Below(L + 1);
    int64_t len = c.rng.Chance(0.25) ? -1 : (int64_t)c.rng.Below(L - off + 1);
    if (len > 0 && c.rng.Chance(0.2)) len = L - off;
    c.Op(Fmt("window off=%llu len=%lld of %llu", (unsigned long long)off, (long long)len, (unsigned long long)L));
    auto r = OffsetInputStream::Create(st.top, len, off);
    VF_EXPECT(r.ok(), "window-refused", "off=%llu len=%lld of %llu: %s", (unsigned long long)off, (long long)len, (unsigned long long)L, r.status().ToString().c_str());
    st.top = std::move(r).value();
    st.view = st.view.Window(off, len == -1 ? L - off : len);
}
void AddBuffer(Case& c, Stack& st) {
    int bs = c.rng.Of<int>({1, 2, 3, 4, 5, 7, 8, 13, 16, 32, 64, 100, 1000});
    c.Op(Fmt("buffer %d", bs));
    st.top = std::make_shared<BufferedInputStream>(st.top, bs, st.pool.get());
    st.positional = false;
}
}  // namespace

VF_SCENARIO(byte_array, 15000, 75000) {
    Stack st;
    MakeBytes(c, st);
    c.Op(Fmt("bytes %llu", (unsigned long long)st.view.length));
    Drive(c, st, c.rng.Range(5, 40), false);
}
VF_SCENARIO(buffered, 25000, 125000) {
    Stack st;
    MakeBytes(c, st);
    c.Op(Fmt("bytes %llu", (unsigned long long)st.view.length));
    AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 60), false);
}
VF_SCENARIO(windowed, 25000, 125000) {
    Stack st;
    MakeBytes(c, st);
    AddWindow(c, st);
    if (c.rng.Chance(0.3)) AddWindow(c, st);
    Drive(c, st, c.rng.Range(5, 60), false);
}
VF_SCENARIO(buffered_window, 15000, 75000) {
    Stack st;
    MakeBytes(c, st);
    AddWindow(c, st);
    AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 60), false);
}
VF_SCENARIO(huge_source, 7000, 35000) {
    Stack st;
    MakeRemote(c, st, true);
    c.Op(Fmt("remote %llu", (unsigned long long)st.view.length));
    bool win = c.rng.Chance(0.8);
    if (win) AddWindow(c, st);
    if (!win || c.rng.Chance(0.3)) AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 30), false);
}
// One call to the wrapped stream fails: the error is reported and later requests are still right.
VF_SCENARIO(failing_source, 25000, 125000) {
    Stack st;
    MakeRemote(c, st, false);
    bool win = c.rng.Chance(0.6);
    if (win) AddWindow(c, st);
    if (!win || c.rng.Chance(0.4)) AddBuffer(c, st);
    st.remote->fail_call = st.remote->calls + c.rng.Below(25);
    c.Op(Fmt("fail call %lld", (long long)st.remote->fail_call));
    Drive(c, st, c.rng.Range(10, 40), true);
}
VF_SCENARIO(window_bounds, 15000, 75000) {
    Stack st;
    MakeBytes(c, st);
    int64_t L = st.view.length;
    int64_t off = c.rng.Chance(0.5) ? c.rng.Range(-3, L + 3) : c.rng.Edgy64();
    int64_t len = c.rng.Chance(0.5) ? c.rng.Range(-3, L + 3) : c.rng.Edgy64();
    c.Op(Fmt("window off=%lld len=%lld of %lld", (long long)off, (long long)len, (long long)L), true);
    bool want = off >= 0 && off <= L && (len == -1 || (len >= 0 && len <= L - off));
    auto r = OffsetInputStream::Create(st.top, len, off);
    VF_EXPECT(r.ok() == want, want ? "window-refused" : "window-accepted", "off=%lld len=%lld of %lld", (long long)off, (long long)len, (long long)L);
    if (r.ok()) {
        st.top = std::move(r).value();
        st.view = st.view.Window(off, len == -1 ? L - off : len);
        Drive(c, st, 4, false);
    }
}

// A source that signals its end by returning fewer bytes: reading past the end through a buffer is
// refused, it neither loops nor aborts.
VF_SCENARIO(local_file, 15000, 75000) {
    Stack st;
    MakeBytes(c, st);
    std::string path = vf::Scratch() + Fmt("/f%d", (int)c.index() % 7);
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(st.view.data.data(), 1, st.view.length, f) != st.view.length || fclose(f) != 0) {
        fprintf(stderr, "HARNESS-ERROR: cannot write %s\n", path.c_str());
        exit(2);
    }
    LocalFileSystem fs;
    auto r = fs.Open(path);
    VF_EXPECT(r.ok(), "open", "%s", r.status().ToString().c_str());
    st.top = std::move(r).value();
    st.file = true;
    if (c.rng.Chance(0.3)) {
        AddWindow(c, st);
        st.file = false;
    }
    if (c.rng.Chance(0.3)) AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 60), false);
    Status closed = st.top->Close();
    VF_EXPECT(closed.ok(), "close", "%s", closed.ToString().c_str());
}
// A file of several gigabytes that occupies almost nothing.
VF_SCENARIO(huge_file, 1500, 10000) {
    Stack st;
    st.pool = GetMemoryPool();
    st.view.length = (1ull << 31) + (c.rng.Below(8) << 30) + c.rng.Below(1000);
    uint64_t L = st.view.length;
    std::string path = vf::Scratch() + Fmt("/h%d", (int)c.index() % 3);
    int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    bool made = fd >= 0 && ::ftruncate(fd, L) == 0;
    for (uint64_t at : std::vector<uint64_t>{0, (1ull << 31) - 3000, (1ull << 32) - 3000, L - 6000}) {
        if (at + 6000 > L) continue;
        st.view.islands[at] = c.rng.Bytes(6000);
        made = made && ::pwrite(fd, st.view.islands[at].data(), 6000, at) == 6000;
    }
    if (!made || ::close(fd) != 0) {
        fprintf(stderr, "HARNESS-ERROR: cannot write %s\n", path.c_str());
        exit(2);
    }
    // islands may overlap at the end: keep what was written last
    for (auto it = st.view.islands.begin(); it != st.view.islands.end(); ++it) {
        auto next = std::next(it);
        if (next != st.view.islands.end() && it->first + it->second.size() > next->first) it->second.resize(next->first - it->first);
    }
    c.Op(Fmt("file of %llu", (unsigned long long)L));
    LocalFileSystem fs;
    auto r = fs.Open(path);
    VF_EXPECT(r.ok(), "open", "%s", r.status().ToString().c_str());
    st.top = std::move(r).value();
    st.file = true;
    if (c.rng.Chance(0.3)) {
        AddWindow(c, st);
        st.file = false;
    }
    if (c.rng.Chance(0.3)) AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 30), false);
    Status closed = st.top->Close();
    VF_EXPECT(closed.ok(), "close", "%s", closed.ToString().c_str());
    st.top.reset();
    ::truncate(path.c_str(), 0);
}
VF_SCENARIO(short_source, 12000, 60000) {
    Stack st;
    MakeRemote(c, st, false);
    st.remote->short_at_end = true;
    AddBuffer(c, st);
    Drive(c, st, c.rng.Range(5, 30), false);
}
