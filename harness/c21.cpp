// Status, Result and ScopeGuard histories against plain models with live-object accounting.
#include "vf.h"

#include "paimon/common/utils/scope_guard.h"
#include "paimon/result.h"
#include "paimon/status.h"

using namespace paimon;
using vf::Case;
using vf::Fmt;

namespace {
class Det : public StatusDetail {
 public:
    explicit Det(int n) : n_(n) {}
    const char* type_id() const override { return "verif::Det"; }
    std::string ToString() const override { return "det" + std::to_string(n_); }

 private:
    int n_;
};
struct Err {
    bool ok = true;
    StatusCode code = StatusCode::OK;
    std::string msg;
    std::shared_ptr<StatusDetail> det;
};
const StatusCode kCodes[] = {StatusCode::OutOfMemory, StatusCode::KeyError, StatusCode::TypeError, StatusCode::Invalid,
                             StatusCode::IOError, StatusCode::CapacityError, StatusCode::IndexError, StatusCode::UnknownError,
                             StatusCode::NotImplemented, StatusCode::SerializationError, StatusCode::NotExist, StatusCode::Exist};
Status Make(const Err& e, int how) {
    if (e.ok) return how & 1 ? Status::OK() : Status();
    if (how & 1 || e.det) return how & 2 ? Status(e.code, e.msg).WithDetail(e.det) : Status(e.code, e.msg, e.det);
    switch (e.code) {
        case StatusCode::OutOfMemory: return Status::OutOfMemory(e.msg);
        case StatusCode::KeyError: return Status::KeyError(e.msg);
        case StatusCode::TypeError: return Status::TypeError(e.msg);
        case StatusCode::Invalid: return Status::Invalid(e.msg);
        case StatusCode::IOError: return Status::IOError(e.msg);
        case StatusCode::CapacityError: return Status::CapacityError(e.msg);
        case StatusCode::IndexError: return Status::IndexError(e.msg);
        case StatusCode::UnknownError: return Status::UnknownError(e.msg);
        case StatusCode::NotImplemented: return Status::NotImplemented(e.msg);
        case StatusCode::SerializationError: return Status::SerializationError(e.msg);
        case StatusCode::NotExist: return Status::NotExist(e.msg);
        default: return Status::Exist(e.msg);
    }
}
Err RandErr(Case& c) {
    Err e;
    if (c.rng.Chance(0.3)) return e;
    e.ok = false;
    e.code = kCodes[c.rng.Below(12)];
    e.msg = c.rng.Chance(0.1) ? "" : c.rng.Chance(0.1) ? c.rng.Bytes(c.rng.Range(1, 300)) : c.rng.Ascii(c.rng.Range(1, 40));
    if (c.rng.Chance(0.3)) e.det = std::make_shared<Det>((int)c.rng.Below(3));
    return e;
}
std::string Text(const Err& e) {
    return e.ok ? "OK" : Fmt("code %d '%s'%s", (int)e.code, e.msg.c_str(), e.det ? e.det->ToString().c_str() : "");
}
void Same(Case& c, const Status& s, const Err& e, const char* where) {
    VF_EXPECT(s.ok() == e.ok, "status-ok", "%s: ok=%d, expected %s", where, s.ok(), Text(e).c_str());
    VF_EXPECT(s.code() == e.code, "status-code", "%s: code=%d, expected %s", where, (int)s.code(), Text(e).c_str());
    VF_EXPECT(s.message() == e.msg, "status-message", "%s: message '%s', expected %s", where, s.message().c_str(), Text(e).c_str());
    VF_EXPECT(s.detail() == e.det, "status-detail", "%s: detail of %s changed", where, Text(e).c_str());
    bool is[] = {s.IsOutOfMemory(), s.IsKeyError(), s.IsTypeError(), s.IsInvalid(), s.IsIOError(), s.IsCapacityError(),
                 s.IsIndexError(), s.IsUnknownError(), s.IsNotImplemented(), s.IsSerializationError(), s.IsNotExist(), s.IsExist()};
    for (int i = 0; i < 12; i++)
        VF_EXPECT(is[i] == (e.code == kCodes[i]), "status-kind", "%s: kind predicate of code %d answers %d for %s", where, (int)kCodes[i], is[i], Text(e).c_str());
    std::string t = s.ToString();
    if (e.ok) VF_EXPECT(t == "OK", "status-text", "%s: OK renders as '%s'", where, t.c_str());
    else {
        static const char* kNames[] = {"Out of memory", "Key error", "Type error", "Invalid", "IOError", "Capacity error", "Index error", "Unknown error", "NotImplemented", "Serialization error"};
        for (int i = 0; i < 10; i++)
            if (e.code == kCodes[i]) VF_EXPECT(t.rfind(kNames[i], 0) == 0 && s.CodeAsString() == kNames[i], "status-text", "%s: '%s' does not name the kind of %s", where, t.c_str(), Text(e).c_str());
        VF_EXPECT(t.find(e.msg) != std::string::npos, "status-text", "%s: '%s' does not contain the message of %s", where, t.c_str(), Text(e).c_str());
        if (e.det) VF_EXPECT(t.find(e.det->ToString()) != std::string::npos, "status-text", "%s: '%s' does not contain the detail of %s", where, t.c_str(), Text(e).c_str());
    }
}
// A value whose live copies are counted; the address of each live object is remembered.
struct Val {
    static std::set<const void*>& live() {
        static std::set<const void*> s;
        return s;
    }
    static const char*& bad() {
        static const char* b = nullptr;
        return b;
    }
    std::unique_ptr<std::string> p;
    void Born() {
        if (!live().insert(this).second) bad() = "a value was constructed over a live value";
    }
    void Alive() const {
        if (!live().count(this)) bad() = "a value was used before construction or after destruction";
    }
    explicit Val(std::string s) : p(new std::string(std::move(s))) { Born(); }
    Val(const Val& o) : p(o.p ? new std::string(*o.p) : nullptr) { o.Alive(); Born(); }
    Val(Val&& o) noexcept : p(std::move(o.p)) { o.Alive(); Born(); }
    Val& operator=(const Val& o) { Alive(); o.Alive(); if (this != &o) p.reset(o.p ? new std::string(*o.p) : nullptr); return *this; }
    Val& operator=(Val&& o) noexcept { Alive(); o.Alive(); p = std::move(o.p); return *this; }
    ~Val() {
        if (!live().erase(this)) bad() = "a value was destroyed twice or never constructed";
    }
};
struct Only {  // move-only
    Val v;
    explicit Only(std::string s) : v(std::move(s)) {}
    Only(Only&&) noexcept = default;
    Only& operator=(Only&&) noexcept = default;
};
struct Slot {
    bool err = false, moved = false;
    Err e;
    std::string v;
};
template <typename R>
void SameR(Case& c, const R& r, const Slot& m, const char* where) {
    VF_EXPECT(Val::bad() == nullptr, "lifetime", "%s: %s", where, Val::bad());
    VF_EXPECT(r.ok() == !m.err, "result-ok", "%s: ok=%d, expected %d", where, r.ok(), !m.err);
    if (m.err) Same(c, r.status(), m.e, where);
    else {
        VF_EXPECT(r.status().ok(), "result-ok", "%s: a value with status %s", where, r.status().ToString().c_str());
        if (!m.moved) {
            const Val* v;
            if constexpr (std::is_same_v<std::decay_t<decltype(r.value())>, Only>) v = &r.value().v;
            else v = &r.value();
            VF_EXPECT(v->p && *v->p == m.v, "result-value", "%s: value '%s', expected '%s'", where, v->p ? v->p->c_str() : "(empty)", m.v.c_str());
        }
    }
}
Slot RandSlot(Case& c) {
    Slot s;
    if (c.rng.Chance(0.4)) {
        s.err = true;
        do s.e = RandErr(c); while (s.e.ok);
    } else {
        s.v = c.rng.Ascii(c.rng.Range(0, 60));
    }
    return s;
}
Status Prop1(const Status& s, int* after) {
    PAIMON_RETURN_NOT_OK(s);
    ++*after;
    return Status::OK();
}
Result<Val> Prop2(Result<Val> r, int* after) {
    PAIMON_ASSIGN_OR_RAISE(Val v, std::move(r));
    ++*after;
    return v;
}
struct Base {
    virtual ~Base() = default;
    virtual int Id() const = 0;
};
struct Derived : Base {
    explicit Derived(int i) : v(std::to_string(i)), id(i) {}
    int Id() const override { return id; }
    Val v;
    int id;
};
}  // namespace

VF_SCENARIO(status, 30000, 600000) {
    const int n = (int)c.rng.Range(2, 5);
    std::vector<Status> s(n);
    std::vector<Err> m(n);
    int steps = (int)c.rng.Range(3, 40);
    for (int k = 0; k < steps; k++) {
        int i = (int)c.rng.Below(n), j = (int)c.rng.Below(n), op = (int)c.rng.Below(13);
        c.Op(Fmt("op %d %d %d", op, i, j), true);
        switch (op) {
            case 0: case 1: {
                Err e = RandErr(c);
                c.Op(Text(e));
                s[i] = Make(e, (int)c.rng.Below(4));
                m[i] = e;
                break;
            }
            case 2: { Status t(s[i]); Same(c, t, m[i], "copy"); break; }
            case 3: s[i] = s[j]; m[i] = m[j]; break;
            case 4:
                if (i != j) { s[i] = std::move(s[j]); m[i] = m[j]; s[j] = Status::OK(); m[j] = Err(); }
                break;
            case 5: { Status t(std::move(s[i])); Same(c, t, m[i], "move"); s[i] = std::move(t); break; }
            case 6: s[i] &= s[j]; if (m[i].ok) m[i] = m[j]; break;
            case 7: { Status t = s[j]; s[i] &= std::move(t); if (m[i].ok) m[i] = m[j]; break; }
            case 8: { Status t = s[i] & s[j]; Same(c, t, m[i].ok ? m[j] : m[i], "and"); break; }
            case 9: { Status t = s[i] & Status(s[j]); Same(c, t, m[i].ok ? m[j] : m[i], "and-rvalue"); break; }
            case 10:
                if (!m[i].ok) {
                    auto d = std::make_shared<Det>((int)c.rng.Below(3));
                    s[i] = s[i].WithDetail(d);
                    m[i].det = d;
                }
                break;
            case 11:
                if (!m[i].ok) {
                    std::string a = c.rng.Ascii(3);
                    int x = (int)c.rng.Below(100);
                    s[i] = s[i].WithMessage(a, x);
                    m[i].msg = a + std::to_string(x);
                }
                break;
            default: {
                int after = 0;
                Status t = Prop1(s[i], &after);
                VF_EXPECT(after == (m[i].ok ? 1 : 0), "propagate", "returned early %d for %s", after == 0, Text(m[i]).c_str());
                Same(c, t, m[i], "propagate");
                bool want = m[i].ok == m[j].ok && (m[i].ok || (m[i].code == m[j].code && m[i].msg == m[j].msg));
                // two different detail objects are compared by their text only
                if (m[i].det == m[j].det) VF_EXPECT((s[i] == s[j]) == want, "equals", "%s == %s gives %d", Text(m[i]).c_str(), Text(m[j]).c_str(), s[i] == s[j]);
                else if (!m[i].det != !m[j].det) VF_EXPECT(!(s[i] == s[j]), "equals", "%s == %s", Text(m[i]).c_str(), Text(m[j]).c_str());
                VF_EXPECT((s[i] == s[j]) != (s[i] != s[j]), "equals", "== and != agree for %s and %s", Text(m[i]).c_str(), Text(m[j]).c_str());
            }
        }
        Same(c, s[i], m[i], "after");
        Same(c, s[j], m[j], "after");
    }
    for (int i = 0; i < n; i++) Same(c, s[i], m[i], "end");
    for (auto& e : m) c.Saw(vf::HashStr(Text(e)));
}

VF_SCENARIO(result, 40000, 800000) {
    Val::bad() = nullptr;
    size_t before = Val::live().size();
    {
        const int n = (int)c.rng.Range(2, 4);
        std::vector<std::unique_ptr<Result<Val>>> r;
        std::vector<Slot> m;
        auto make = [&](const Slot& s) {
            return s.err ? std::make_unique<Result<Val>>(Make(s.e, (int)c.rng.Below(4))) : std::make_unique<Result<Val>>(Val(s.v));
        };
        for (int i = 0; i < n; i++) { m.push_back(RandSlot(c)); r.push_back(make(m[i])); }
        int steps = (int)c.rng.Range(3, 40);
        for (int k = 0; k < steps; k++) {
            int i = (int)c.rng.Below(n), j = (int)c.rng.Below(n), op = (int)c.rng.Below(11);
            c.Op(Fmt("op %d %d %d err %d %d", op, i, j, m[i].err, m[j].err), true);
            switch (op) {
                case 0: m[i] = RandSlot(c); r[i] = make(m[i]); break;
                case 1: *r[i] = *r[j]; m[i] = m[j]; break;
                case 2:
                    if (i != j) { *r[i] = std::move(*r[j]); bool mv = m[j].moved; m[i] = m[j]; m[i].moved = mv; if (!m[j].err) m[j].moved = true; }
                    break;
                case 3: { Result<Val> t(*r[j]); SameR(c, t, m[j], "copy"); break; }
                case 4: { Result<Val> t(std::move(*r[j])); SameR(c, t, m[j], "move"); if (!m[j].err) m[j].moved = true; SameR(c, *r[j], m[j], "moved-from"); break; }
                case 5: { Slot s = RandSlot(c); *r[i] = s.err ? Result<Val>(Make(s.e, 0)) : Result<Val>(Val(s.v)); m[i] = s; break; }
                case 6: { Slot s = RandSlot(c); Val v(s.v); if (!s.err) { *r[i] = v; m[i] = s; } else { *r[i] = Make(s.e, 1); m[i] = s; } break; }
                case 7: {
                    Val got = static_cast<const Result<Val>&>(*r[i]).value_or(Val("other"));
                    if (m[i].err) VF_EXPECT(got.p && *got.p == "other", "value-or", "an error gave '%s'", got.p ? got.p->c_str() : "");
                    else if (!m[i].moved) VF_EXPECT(got.p && *got.p == m[i].v, "value-or", "'%s', expected '%s'", got.p ? got.p->c_str() : "", m[i].v.c_str());
                    break;
                }
                case 8: {
                    Val got = std::move(*r[i]).value_or(Val("other"));
                    if (m[i].err) VF_EXPECT(got.p && *got.p == "other", "value-or", "an error gave '%s'", got.p ? got.p->c_str() : "");
                    else {
                        if (!m[i].moved) VF_EXPECT(got.p && *got.p == m[i].v, "value-or", "'%s', expected '%s'", got.p ? got.p->c_str() : "", m[i].v.c_str());
                        m[i].moved = true;
                    }
                    break;
                }
                case 9: {
                    int after = 0;
                    auto t = Prop2(*r[i], &after);
                    VF_EXPECT(after == (m[i].err ? 0 : 1), "propagate", "an error was not returned, or a value was");
                    SameR(c, t, m[i], "propagate");
                    break;
                }
                default: { Result<Val>& self = *r[i]; *r[i] = self; break; }
            }
            SameR(c, *r[i], m[i], "after");
            SameR(c, *r[j], m[j], "after");
        }
    }
    VF_EXPECT(Val::bad() == nullptr, "lifetime", "%s", Val::bad());
    VF_EXPECT(Val::live().size() == before, "lifetime", "%zu values were never destroyed", Val::live().size() - before);
    Val::live().clear();
}

VF_SCENARIO(move_only, 30000, 500000) {
    Val::bad() = nullptr;
    Val::live().clear();
    {
        Slot a = RandSlot(c), b = RandSlot(c);
        c.Op(Fmt("%d %s %d %s", a.err, a.v.c_str(), b.err, b.v.c_str()), true);
        auto make = [&](const Slot& s) -> Result<Only> {
            if (s.err) return Make(s.e, 0);
            return Only(s.v);
        };
        Result<Only> x = make(a), y = make(b);
        SameR(c, x, a, "made");
        SameR(c, y, b, "made");
        x = std::move(y);
        SameR(c, x, b, "assigned");
        if (!b.err) {
            Only o = std::move(x).value();
            VF_EXPECT(o.v.p && *o.v.p == b.v, "result-value", "moved out '%s', expected '%s'", o.v.p ? o.v.p->c_str() : "", b.v.c_str());
            x = std::move(o);
            SameR(c, x, b, "put back");
        }
        // pointer conversions
        int id = (int)c.rng.Below(1000);
        bool err = c.rng.Chance(0.4);
        Err e;
        do e = RandErr(c); while (e.ok);
        auto up = [&]() -> Result<std::unique_ptr<Derived>> {
            if (err) return Make(e, 0);
            return std::make_unique<Derived>(id);
        };
        auto sp = [&]() -> Result<std::shared_ptr<Base>> {
            if (err) return Make(e, 0);
            return std::make_shared<Derived>(id);
        };
        Result<std::unique_ptr<Base>> ub(up());
        auto sb = sp();
        auto sb2 = sb;
        auto sb3 = std::move(sb2);
        if (err) {
            Same(c, ub.status(), e, "converted");
            Same(c, sb3.status(), e, "converted");
        } else {
            VF_EXPECT(ub.ok() && ub.value() && ub.value()->Id() == id, "convert", "the converted pointer is wrong");
            VF_EXPECT(sb3.ok() && sb3.value() == sb.value() && sb.value().use_count() == 2, "convert", "use count %ld", sb.value().use_count());
        }
    }
    VF_EXPECT(Val::bad() == nullptr, "lifetime", "%s", Val::bad());
    VF_EXPECT(Val::live().empty(), "lifetime", "%zu values were never destroyed", Val::live().size());
    Val::live().clear();
}

VF_SCENARIO(guards, 20000, 300000) {
    int n = (int)c.rng.Range(1, 6);
    std::vector<int> ran(n, 0), want(n, 1), order, expect;
    {
        std::vector<std::unique_ptr<ScopeGuard>> g;
        for (int i = 0; i < n; i++) {
            g.emplace_back(new ScopeGuard([&, i] { ran[i]++; order.push_back(i); }));
            bool rel = c.rng.Chance(0.4);
            c.Op(Fmt("guard %d release %d", i, rel), true);
            if (rel) {
                g[i]->Release();
                if (c.rng.Chance(0.3)) g[i]->Release();
                want[i] = 0;
            }
        }
        for (int i = 0; i < n; i++) VF_EXPECT(ran[i] == 0, "guard-early", "guard %d ran before its scope ended", i);
        while (!g.empty()) {
            if (want[g.size() - 1]) expect.push_back((int)g.size() - 1);
            g.pop_back();
        }
    }
    for (int i = 0; i < n; i++) VF_EXPECT(ran[i] == want[i], "guard-count", "guard %d ran %d times, expected %d", i, ran[i], want[i]);
    VF_EXPECT(order == expect, "guard-order", "guards ran out of order");
    int ran2 = 0;
    bool threw = false;
    try {
        ScopeGuard g([&] { ran2++; });
        if (c.rng.Chance(0.5)) throw 7;
    } catch (int) {
        threw = true;
    }
    VF_EXPECT(ran2 == 1, "guard-count", "guard ran %d times on scope exit (exception %d)", ran2, threw);
}
