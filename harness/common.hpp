// Shared by all drivers: JSON in/out, event log in shared memory, forked runs, record projection.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <unordered_set>
#include <vector>

#include <boost/variant/apply_visitor.hpp>
#include <boost/variant/get.hpp>

#define RAPIDJSON_HAS_STDSTRING 1
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include "race.hpp"

#include "blackhole/attribute.hpp"
#include "blackhole/attributes.hpp"
#include "blackhole/extensions/writer.hpp"
#include "blackhole/record.hpp"

namespace h {
struct disp_t { const char* p; size_t n; bool thr; };   // a lazily formatted user type
}
namespace blackhole {
inline namespace v1 {
template<> struct display_traits<h::disp_t> {
    static auto apply(const h::disp_t& v, writer_t& w) -> void {
        if (v.thr) throw std::runtime_error("attr");
        w.inner << fmt::StringRef(v.p, v.n);
    }
};
}
}

namespace h {

typedef rapidjson::Document doc_t;
typedef rapidjson::Value val_t;

inline std::string hex(const char* p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    r.reserve(2 * n);
    for (size_t i = 0; i < n; i++) {
        r += d[static_cast<unsigned char>(p[i]) >> 4];
        r += d[static_cast<unsigned char>(p[i]) & 15];
    }
    return r;
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
inline std::string unhex(const std::string& s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
inline std::string str(const val_t& v) { return std::string(v.GetString(), v.GetStringLength()); }

// JSON string literal (ASCII content expected; anything else escaped as \u00XX).
inline std::string q(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
// JSON array of byte codes.
inline std::string bytes(const char* p, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; i++) {
        if (i) r += ',';
        r += std::to_string(static_cast<unsigned char>(p[i]));
    }
    return r + "]";
}
inline std::string bytes(const std::string& s) { return bytes(s.data(), s.size()); }
inline std::string unbytes(const val_t& v) {
    std::string r;
    for (auto& x : v.GetArray()) r += static_cast<char>(x.GetInt());
    return r;
}

// ---- shared event log --------------------------------------------------------------------------
struct shm_t {
    uint32_t len;
    uint32_t nchoices;
    uint32_t overflow;
    char status[64];
    uint16_t choices[3 * 40000];
    char buf[1 << 22];
};
inline shm_t*& shm() { static shm_t* p = nullptr; return p; }
inline void shm_init() {
    shm() = static_cast<shm_t*>(mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm() == MAP_FAILED) { perror("mmap"); exit(3); }
}
inline void ev(const std::string& json) {
    race::quiet_t quiet;
    shm_t* s = shm();
    if (s->len + json.size() + 2 > sizeof s->buf) { s->overflow = 1; return; }
    if (s->len) s->buf[s->len++] = ',';
    memcpy(s->buf + s->len, json.data(), json.size());
    s->len += static_cast<uint32_t>(json.size());
}
inline void set_status(const char* what) { strncpy(shm()->status, what, sizeof shm()->status - 1); }

#if defined(__SANITIZE_ADDRESS__)
}
// Runaway allocations fail before they hurt the machine.
extern "C" __attribute__((used, visibility("default"))) inline const char* __asan_default_options() { return "max_allocation_size_mb=4096"; }
namespace h {
#endif
// Runs fn in a forked child; returns "ok", "hang", "deadlock", "stuck", "overflow" (of the event log), "crash:<how>" or what set_status said.
inline std::string forked(const std::function<void()>& fn, int timeout_ms = 20000) {
    shm_t* s = shm();
    s->len = 0; s->nchoices = 0; s->overflow = 0; memset(s->status, 0, sizeof s->status);
    fflush(stdout); fflush(stderr);
    int pfd[2];
    if (pipe2(pfd, O_CLOEXEC)) { perror("pipe"); exit(3); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(pfd[0]);
        fn();
        set_status("ok");
        _exit(0);
    }
    close(pfd[1]);
    struct pollfd p = {pfd[0], POLLIN, 0};
    int rc = poll(&p, 1, timeout_ms);
    if (rc == 0) {          // a busy machine gets more time
        double load[1] = {0};
        if (getloadavg(load, 1) == 1 && load[0] > 1.2 * sysconf(_SC_NPROCESSORS_ONLN)) rc = poll(&p, 1, 2 * timeout_ms);
    }
    close(pfd[0]);
    std::string res;
    if (rc == 0) { kill(pid, SIGKILL); res = "stuck"; }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!res.empty()) return res;
    if (s->overflow) return "overflow";
    if (s->status[0]) return s->status;
    if (WIFSIGNALED(st)) return "crash:sig" + std::to_string(WTERMSIG(st));
    return "crash:exit" + std::to_string(WEXITSTATUS(st));
}

// Executions that never end cost time and all say the same.
inline bool enough(const std::string& st) { static int n = 0; return st == "stuck" && ++n >= 2; }

// ---- records -----------------------------------------------------------------------------------
namespace bh = blackhole;

// Canonical projection of an attribute view: [key, kind, value], all as strings.
struct proj_t {
    typedef std::string result_type;
    std::string operator()(const bh::attribute::view_t::null_type&) const { return "\"nil\",\"\""; }
    std::string operator()(bool v) const { return std::string("\"bool\",\"") + (v ? "1" : "0") + "\""; }
    std::string operator()(int64_t v) const { return "\"sint\",\"" + std::to_string(v) + "\""; }
    std::string operator()(uint64_t v) const { return "\"uint\",\"" + std::to_string(v) + "\""; }
    std::string operator()(double v) const { uint64_t b; memcpy(&b, &v, 8); return "\"dbl\",\"" + std::to_string(b) + "\""; }
    std::string operator()(const bh::string_view& v) const { return "\"str\",\"" + hex(v.data(), v.size()) + "\""; }
    std::string operator()(const bh::attribute::view_t::function_type& f) const {
        bh::writer_t w; f(w); return "\"fn\",\"" + hex(w.result().data(), w.result().size()) + "\"";
    }
};
struct proj_visitor_t : public bh::attribute::view_t::visitor_t {
    std::string r;
    auto operator()(const bh::attribute::view_t::null_type& v) -> void override { r = proj_t()(v); }
    auto operator()(const bh::attribute::view_t::bool_type& v) -> void override { r = proj_t()(v); }
    auto operator()(const bh::attribute::view_t::sint64_type& v) -> void override { r = proj_t()(static_cast<int64_t>(v)); }
    auto operator()(const bh::attribute::view_t::uint64_type& v) -> void override { r = proj_t()(static_cast<uint64_t>(v)); }
    auto operator()(const bh::attribute::view_t::double_type& v) -> void override { r = proj_t()(v); }
    auto operator()(const bh::attribute::view_t::string_type& v) -> void override { r = proj_t()(v); }
    auto operator()(const bh::attribute::view_t::function_type& v) -> void override { r = proj_t()(v); }
};
inline std::string proj_attr(const bh::string_view& k, const bh::attribute::view_t& v) {
    proj_visitor_t p;
    v.apply(p);
    return "[\"" + hex(k.data(), k.size()) + "\"," + p.r + "]";
}
// List of attribute lists.
inline std::string proj_pack(const bh::attribute_pack& pack) {
    std::string r = "[";
    bool f1 = true;
    for (const auto& list : pack) {
        if (!f1) r += ',';
        f1 = false;
        r += '[';
        bool f2 = true;
        for (const auto& kv : list.get()) {
            if (!f2) r += ',';
            f2 = false;
            r += proj_attr(kv.first, kv.second);
        }
        r += ']';
    }
    return r + "]";
}

// Attributes described in a program: [key(hex), kind, value].
// Memory is owned here; poison() overwrites it, as a caller reusing its buffers would.
struct attrs_t {
    struct one_t { std::unique_ptr<char[]> k; size_t kn; std::unique_ptr<char[]> v; size_t vn; std::string kind; std::string num; };
    std::vector<one_t> items;
    std::vector<std::unique_ptr<disp_t>> fns;
    bh::attribute_list list;

    explicit attrs_t(const val_t& d) {
        for (auto& a : d.GetArray()) {
            one_t o;
            std::string k = unhex(str(a[0]));
            o.kind = str(a[1]);
            o.num = str(a[2]);
            std::string v;
            if (o.kind == "str" || o.kind == "fn") v = unhex(o.num);
            o.k.reset(new char[k.size() + 1]); o.kn = k.size(); memcpy(o.k.get(), k.data(), k.size()); o.k[k.size()] = 'Z';
            o.v.reset(new char[v.size() + 1]); o.vn = v.size(); memcpy(o.v.get(), v.data(), v.size()); o.v[v.size()] = 'Z';
            items.push_back(std::move(o));
        }
        for (auto& o : items) {
            bh::string_view k(o.k.get(), o.kn);
            if (o.kind == "nil") list.emplace_back(k, bh::attribute::view_t(nullptr));
            else if (o.kind == "bool") list.emplace_back(k, bh::attribute::view_t(o.num == "1"));
            else if (o.kind == "sint") list.emplace_back(k, bh::attribute::view_t(static_cast<int64_t>(std::stoll(o.num))));
            else if (o.kind == "uint") list.emplace_back(k, bh::attribute::view_t(static_cast<uint64_t>(std::stoull(o.num))));
            else if (o.kind == "dbl") { uint64_t b = std::stoull(o.num); double d; memcpy(&d, &b, 8); list.emplace_back(k, bh::attribute::view_t(d)); }
            else if (o.kind == "str") list.emplace_back(k, bh::attribute::view_t(bh::string_view(o.v.get(), o.vn)));
            else if (o.kind == "fn" || o.kind == "fnthrow") {
                fns.emplace_back(new disp_t{o.v.get(), o.vn, o.kind == "fnthrow"});
                list.emplace_back(k, bh::attribute::view_t(*fns.back()));
            } else { fprintf(stderr, "bad kind %s\n", o.kind.c_str()); exit(3); }
        }
    }
    void poison() {
        for (auto& o : items) { memset(o.k.get(), 'P', o.kn); memset(o.v.get(), 'P', o.vn); }
    }
};

struct buf_t {   // a string in exactly sized memory without terminator
    std::unique_ptr<char[]> p; size_t n;
    explicit buf_t(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); }
    bh::string_view view() const { return {p.get(), n}; }
    void poison() { memset(p.get(), 'P', n); }
};

inline std::string ts_us(const bh::record_t::time_point& t) {
    return std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count());
}

inline std::string exc_name(std::exception_ptr e) {
    try { std::rethrow_exception(e); }
    catch (const std::system_error&) { return "system_error"; }
    catch (const std::invalid_argument&) { return "invalid_argument"; }
    catch (const std::out_of_range&) { return "out_of_range"; }
    catch (const std::bad_cast&) { return "bad_cast"; }
    catch (const std::logic_error&) { return "logic_error"; }
    catch (const std::runtime_error&) { return "runtime_error"; }
    catch (const std::exception&) { return "exception"; }
    catch (...) { return "unknown"; }
}

}  // namespace h
