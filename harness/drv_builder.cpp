// Registries, builders and loggers made from JSON documents, and everything their records reach.
// A program: {"docs":[bytes..], "names":[bytes..], "recs":[{"sev","msg","attrs"}..], "refs":[description..],
//             "ops":[{"op":..}..]}  (see gen_builder.py)
#include "common.hpp"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <ftw.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <syslog.h>
#include <time.h>

#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>

#include <boost/optional/optional.hpp>
#include <boost/system/system_error.hpp>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/filter.hpp"
#include "blackhole/formatter.hpp"
#include "blackhole/formatter/json.hpp"
#include "blackhole/formatter/string.hpp"
#include "blackhole/formatter/tskv.hpp"
#include "blackhole/handler.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/root.hpp"
#include "blackhole/sink.hpp"

#include "src/config/json.hpp"

namespace bh = blackhole;
namespace cfg = bh::config;
using namespace h;

namespace {

struct effect_t { std::string k, where, b; };      // b: content; where: the rest, as JSON

struct state_t {
    bool on = false;
    std::vector<effect_t> out;
    std::map<int, std::string> peer;     // connected sockets
    int live = 0;
    // What is behind asynchronous sinks of the loggers, by logger.
    std::mutex mutex;
    std::condition_variable cv;
    std::vector<std::vector<effect_t>> async;
    bool gate = false, flood = false;
    int got = 0;
    std::size_t building = 0;
    std::thread::id main;
} G;

void effect(const std::string& k, const std::string& where, const std::string& b, bool joins) {
    if (joins && !G.out.empty() && G.out.back().k == k && G.out.back().where == where) G.out.back().b += b;
    else G.out.push_back({k, where, b});
}
std::string shown(const std::vector<effect_t>& es) {
    std::string r = "[";
    for (auto& e : es) {
        if (r.size() > 1) r += ',';
        r += "{\"k\":" + q(e.k) + e.where + (e.k == "uh" ? "" : ",\"b\":" + bytes(e.b)) + "}";
    }
    return r + "]";
}

// ---- the system ---------------------------------------------------------------------------------
template<class F> F next(const char* sym) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, sym)); }
#define REAL(sym, type) static type real = next<type>(sym)
int kind(int fd) { int t = 0; socklen_t n = sizeof t; return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &n) == 0 ? t : 0; }
bool ours(int fd) {
    if (!G.on) return false;
    int d = 0; socklen_t n = sizeof d;
    return getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &d, &n) == 0 && (d == AF_INET || d == AF_INET6);
}
std::string place(const sockaddr* sa) {
    char b[64] = "?";
    int port = 0;
    if (sa && sa->sa_family == AF_INET) {
        auto a = reinterpret_cast<const sockaddr_in*>(sa);
        inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); port = ntohs(a->sin_port);
    } else if (sa && sa->sa_family == AF_INET6) {
        auto a = reinterpret_cast<const sockaddr_in6*>(sa);
        inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b); port = ntohs(a->sin6_port);
    }
    return ",\"host\":" + bytes(b) + ",\"port\":" + std::to_string(port);
}
ssize_t sending(int fd, const sockaddr* sa, const iovec* v, std::size_t n) {
    std::string all;
    for (std::size_t i = 0; i < n; i++) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    bool stream = kind(fd) == SOCK_STREAM;
    if (!stream || !all.empty()) effect(stream ? "tcp" : "udp", sa ? place(sa) : G.peer[fd], all, stream);
    return static_cast<ssize_t>(all.size());
}
void entry(int prio, const char* fmt, va_list ap) {
    char* s = nullptr;
    int n = vasprintf(&s, fmt, ap);
    effect("syslog", ",\"prio\":" + std::to_string(prio), std::string(s, n > 0 ? static_cast<std::size_t>(n) : 0), false);
    free(s);
}
}  // namespace

extern "C" {
int connect(int fd, const sockaddr* sa, socklen_t n) {
    typedef int (*f_t)(int, const sockaddr*, socklen_t);
    REAL("connect", f_t);
    if (!ours(fd)) return real(fd, sa, n);
    G.peer[fd] = place(sa);
    return 0;
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int);
    REAL("send", f_t);
    if (!ours(fd)) return real(fd, p, n, fl);
    iovec v = {const_cast<void*>(p), n};
    return sending(fd, nullptr, &v, 1);
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* sa, socklen_t sn) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int, const sockaddr*, socklen_t);
    REAL("sendto", f_t);
    if (!ours(fd)) return real(fd, p, n, fl, sa, sn);
    iovec v = {const_cast<void*>(p), n};
    return sending(fd, sa, &v, 1);
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    typedef ssize_t (*f_t)(int, const msghdr*, int);
    REAL("sendmsg", f_t);
    if (!ours(fd)) return real(fd, m, fl);
    return sending(fd, static_cast<const sockaddr*>(m->msg_name), m->msg_iov, m->msg_iovlen);
}
ssize_t write(int fd, const void* p, size_t n) {
    typedef ssize_t (*f_t)(int, const void*, size_t);
    REAL("write", f_t);
    if (!ours(fd)) return real(fd, p, n);
    iovec v = {const_cast<void*>(p), n};
    return sending(fd, nullptr, &v, 1);
}
ssize_t writev(int fd, const iovec* v, int k) {
    typedef ssize_t (*f_t)(int, const iovec*, int);
    REAL("writev", f_t);
    if (!ours(fd)) return real(fd, v, k);
    return sending(fd, nullptr, v, static_cast<std::size_t>(k));
}
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** out) {
    typedef int (*f_t)(const char*, const char*, const addrinfo*, addrinfo**);
    REAL("getaddrinfo", f_t);
    in6_addr a;
    if (!node || (inet_pton(AF_INET, node, &a) != 1 && inet_pton(AF_INET6, node, &a) != 1)) return EAI_NONAME;
    return real(node, service, hints, out);
}
void openlog(const char*, int, int) {}
void closelog() {}
void vsyslog(int prio, const char* fmt, va_list ap) { entry(prio, fmt, ap); }
void syslog(int prio, const char* fmt, ...) { va_list ap; va_start(ap, fmt); entry(prio, fmt, ap); va_end(ap); }
void __vsyslog_chk(int prio, int, const char* fmt, va_list ap) { entry(prio, fmt, ap); }
void __syslog_chk(int prio, int, const char* fmt, ...) { va_list ap; va_start(ap, fmt); entry(prio, fmt, ap); va_end(ap); }
// Records are made at one instant.
int clock_gettime(clockid_t id, timespec* ts) {
    typedef int (*f_t)(clockid_t, timespec*);
    REAL("clock_gettime", f_t);
    if (G.on && id == CLOCK_REALTIME) { ts->tv_sec = 1467374096; ts->tv_nsec = 123456789; return 0; }
    return real(id, ts);
}
}

namespace {

struct out_buf_t : public std::streambuf {
    int_type overflow(int_type c) override {
        if (c != traits_type::eof()) effect("console", "", std::string(1, static_cast<char>(c)), true);
        return c == traits_type::eof() ? 0 : c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (n) effect("console", "", std::string(s, static_cast<std::size_t>(n)), true);
        return n;
    }
};

// ---- the user's types ---------------------------------------------------------------------------
struct part_t {
    part_t() { G.live++; }
    ~part_t() { G.live--; }
};
struct rec_t : public bh::sink_t, part_t {
    std::string id;
    std::size_t logger;
    rec_t(std::string id) : id(std::move(id)), logger(G.building) {}
    auto emit(const bh::record_t&, const bh::string_view& message) -> void override {
        std::string b(message.data(), message.size());
        if (std::this_thread::get_id() == G.main) { effect("rec", ",\"id\":" + bytes(id), b, false); return; }
        std::unique_lock<std::mutex> lock(G.mutex);
        if (G.flood) {
            G.cv.wait(lock, [] { return !G.gate; });
            G.got++;
            return;
        }
        G.async[logger].push_back({"rec", ",\"id\":" + bytes(id), b});
    }
};
struct uf_t : public bh::formatter_t, part_t {
    std::string tag;
    uf_t(std::string tag) : tag(std::move(tag)) {}
    auto format(const bh::record_t& r, bh::writer_t& w) -> void override {
        w.inner << tag << ":" << static_cast<int>(r.severity()) << ":";
        w.inner << bh::fmt::StringRef(r.formatted().data(), r.formatted().size());
    }
};
struct uh_t : public bh::handler_t, part_t {
    std::string id;
    uh_t(std::string id) : id(std::move(id)) {}
    auto handle(const bh::record_t& r) -> void override {
        effect("uh", ",\"id\":" + bytes(id) + ",\"sev\":" + std::to_string(static_cast<int>(r.severity())), "", false);
    }
};
struct uflt_t : public bh::filter_t, part_t {
    std::vector<int64_t> deny;
    auto filter(const bh::record_t& r) -> action_t override {
        for (auto d : deny) if (d == r.severity()) return action_t::deny;
        return action_t::neutral;
    }
};
template<class T> struct named_t : public bh::factory<T> {
    std::string name;
    explicit named_t(std::string name) : name(std::move(name)) {}
    auto type() const noexcept -> const char* override { return name.c_str(); }
};
std::string text_or(const cfg::option<cfg::node_t>& o) { auto v = o.to_string(); return v ? *v : std::string(); }
struct rec_factory : public named_t<bh::sink_t> {
    using named_t::named_t;
    auto from(const cfg::node_t& c) const -> std::unique_ptr<bh::sink_t> override {
        std::unique_ptr<bh::sink_t> r(new rec_t(text_or(c["id"])));
        if (c["boom"]) throw std::domain_error("boom");
        return r;
    }
};
struct uf_factory : public named_t<bh::formatter_t> {
    using named_t::named_t;
    auto from(const cfg::node_t& c) const -> std::unique_ptr<bh::formatter_t> override {
        auto tag = c["tag"].to_string();
        if (!tag) throw std::invalid_argument("no tag");
        return std::unique_ptr<bh::formatter_t>(new uf_t(*tag));
    }
};
struct uh_factory : public named_t<bh::handler_t> {
    using named_t::named_t;
    auto from(const cfg::node_t& c) const -> std::unique_ptr<bh::handler_t> override {
        return std::unique_ptr<bh::handler_t>(new uh_t(text_or(c["id"])));
    }
};
struct uflt_factory : public named_t<bh::filter_t> {
    using named_t::named_t;
    auto from(const cfg::node_t& c) const -> std::unique_ptr<bh::filter_t> override {
        std::unique_ptr<uflt_t> f(new uflt_t);
        c["deny"].each([&](const cfg::node_t& n) { f->deny.push_back(n.to_sint64()); });
        return std::move(f);
    }
};

// ---- formatters by hand -------------------------------------------------------------------------
std::vector<std::string> strings(const val_t& v) { std::vector<std::string> r; for (auto& x : v.GetArray()) r.push_back(unbytes(x)); return r; }
std::unique_ptr<bh::formatter_t> by_hand(const val_t& d) {
    std::string k = str(d["k"]);
    if (k == "string") {
        bh::builder<bh::formatter::string_t> b(unbytes(d["pattern"]));
        if (d["mapped"].GetBool()) {
            auto names = strings(d["sevmap"]);
            b.mapping([names](int sev, const std::string& spec, bh::writer_t& w) {
                if (sev >= 0 && static_cast<std::size_t>(sev) < names.size()) w.write(spec, names[static_cast<std::size_t>(sev)]);
                else w.write(spec, sev);
            });
        }
        return std::move(b).build();
    }
    if (k == "json") {
        bh::builder<bh::formatter::json_t> b;
        if (d["unique"].GetBool()) b.unique();
        if (d["newline"].GetBool()) b.newline();
        for (auto& o : d["ops"].GetArray()) {
            std::string op = str(o["op"]);
            if (op == "rename") b.rename(unbytes(o["k"]), unbytes(o["v"]));
            else if (op == "format") b.format(unbytes(o["k"]), unbytes(o["v"]));
            else if (op == "route") { if (o["rest"].GetBool()) b.route(unbytes(o["to"])); else b.route(unbytes(o["to"]), strings(o["what"])); }
            else if (op == "timestamp") b.timestamp(unbytes(o["v"]));
            else if (op == "severity") b.severity(strings(o["v"]));
        }
        return std::move(b).build();
    }
    bh::builder<bh::formatter::tskv_t> b;
    for (auto& o : d["ops"].GetArray()) {
        std::string op = str(o["op"]);
        if (op == "create") b.create(unbytes(o["k"]), unbytes(o["v"]));
        else if (op == "rename") b.rename(unbytes(o["k"]), unbytes(o["v"]));
        else if (op == "remove") b.remove(unbytes(o["k"]));
        else if (op == "timestamp") b.timestamp(unbytes(o["k"]), unbytes(o["v"]), o["gm"].GetBool());
    }
    return std::move(b).build();
}

std::string what(const std::exception& e) { return ",\"what\":" + bytes(e.what()); }
// Runs f; the outcome as the JSON of an event without its end.
std::string outcome(const std::function<void()>& f, bool& ok) {
    ok = false;
    try {
        f();
        ok = true;
        return "\"st\":\"ok\",\"what\":[]";
    } catch (const cfg::type_mismatch& e) {
        return "\"st\":\"mismatch\"" + what(e);
    } catch (const boost::system::system_error& e) {
        return "\"st\":\"system_error\"" + what(e);
    } catch (const std::domain_error& e) {
        return "\"st\":\"domain_error\"" + what(e);
    } catch (const std::exception& e) {
        return "\"st\":" + q(exc_name(std::current_exception())) + what(e);
    } catch (...) {
        return "\"st\":\"unknown\",\"what\":[]";
    }
}
std::string disk(const val_t& p) {
    std::string r = ",\"files\":[";
    bool first = true;
    for (auto& n : p["names"].GetArray()) {
        std::ifstream f(unbytes(n));
        if (!f) continue;
        std::stringstream s;
        s << f.rdbuf();
        if (!first) r += ',';
        first = false;
        r += "{\"p\":" + bytes(unbytes(n)) + ",\"c\":" + bytes(s.str()) + "}";
    }
    return r + "]";
}

void run(const val_t& p) {
    setenv("TZ", "XXX-3", 1);
    tzset();
    G.main = std::this_thread::get_id();
    G.on = true;
    static out_buf_t buf;
    std::cout.rdbuf(&buf);
    auto& recs = p["recs"];
    std::vector<std::unique_ptr<attrs_t>> attrs;
    std::vector<std::unique_ptr<buf_t>> msgs;
    for (auto& r : recs.GetArray()) {
        attrs.emplace_back(new attrs_t(r["attrs"]));
        msgs.emplace_back(new buf_t(unbytes(r["msg"])));
    }
    std::string refs;
    for (auto& d : p["refs"].GetArray()) {
        std::unique_ptr<bh::formatter_t> f;
        bool ok;
        std::string st = outcome([&] { f = by_hand(d); }, ok);
        std::string t;
        for (std::size_t i = 0; f && i < attrs.size(); i++) {
            const bh::string_view view = msgs[i]->view();
            bh::attribute_pack pack{attrs[i]->list};
            bh::record_t rec(recs[static_cast<rapidjson::SizeType>(i)]["sev"].GetInt(), view, pack);
            rec.activate(view);
            bh::writer_t w;
            f->format(rec, w);
            t += (i ? "," : "") + bytes(w.result().data(), w.result().size());
        }
        refs += (refs.empty() ? "{" : ",{") + st + ",\"t\":[" + t + "]}";
    }
    ev("{\"e\":\"refs\",\"refs\":[" + refs + "]}");

    std::vector<std::unique_ptr<bh::registry_t>> regs;
    regs.push_back(bh::registry::configured());
    regs.push_back(bh::registry::empty());
    struct bld_t { std::unique_ptr<bh::builder_t> b; int g; };
    std::vector<bld_t> blds;
    std::vector<std::unique_ptr<bh::root_logger_t>> logs;
    G.async.resize(64);
    std::vector<std::size_t> expected(64);
    for (auto& o : p["ops"].GetArray()) {
        std::string op = str(o["op"]);
        std::string head = "{\"e\":" + q(op) + ",";
        bool ok;
        if (op == "reg") {
            auto& g = *regs[o["g"].GetUint() - 1];
            std::string name = unbytes(o["type"]), impl = str(o["impl"]);
            if (impl == "rec") g.add(std::shared_ptr<bh::factory<bh::sink_t>>(new rec_factory(name)));
            else if (impl == "uf") g.add(std::shared_ptr<bh::factory<bh::formatter_t>>(new uf_factory(name)));
            else if (impl == "uh") g.add(std::shared_ptr<bh::factory<bh::handler_t>>(new uh_factory(name)));
            else g.add(std::shared_ptr<bh::factory<bh::filter_t>>(new uflt_factory(name)));
            ev(head + "\"st\":\"ok\"}");
        } else if (op == "get") {
            auto& g = *regs[o["g"].GetUint() - 1];
            std::string cat = str(o["cat"]), name = unbytes(o["type"]);
            ev(head + outcome([&] {
                if (cat == "sink") g.sink(name); else if (cat == "filter") g.filter(name);
                else if (cat == "handler") g.handler(name); else g.formatter(name);
            }, ok) + "}");
        } else if (op == "builder") {
            blds.push_back({nullptr, o["g"].GetInt()});
            std::string text = unbytes(p["docs"][o["d"].GetUint() - 1]);
            std::string st = outcome([&] {
                if (o["rvalue"].GetInt())
                    blds.back().b.reset(new bh::builder_t(regs[o["g"].GetUint() - 1]->builder<cfg::json_t>(std::istringstream(text))));
                else {
                    std::istringstream in(text);
                    blds.back().b.reset(new bh::builder_t(regs[o["g"].GetUint() - 1]->builder<cfg::json_t>(in)));
                }
            }, ok);
            ev(head + st + "}");
        } else if (op == "build") {
            auto& b = blds[o["b"].GetUint() - 1];
            logs.emplace_back();
            G.building = logs.size() - 1;
            std::string st = "\"st\":\"skipped\",\"what\":[]";
            if (b.b) {
                std::string name = unbytes(o["name"]);
                st = outcome([&] { logs.back().reset(new bh::root_logger_t(b.b->build(name))); }, ok);
            }
            ev(head + st + ",\"live\":" + std::to_string(G.live) + "}");
        } else if (op == "dropb") {
            blds[o["b"].GetUint() - 1].b.reset();
            ev(head + "\"st\":\"ok\"}");
        } else if (op == "dropreg") {
            for (auto& b : blds) if (b.g == o["g"].GetInt()) b.b.reset();
            regs[o["g"].GetUint() - 1].reset();
            ev(head + "\"st\":\"ok\"}");
        } else if (op == "log" || op == "flood") {
            auto& lg = logs[o["l"].GetUint() - 1];
            if (!lg) { ev(head + "\"st\":\"skipped\"}"); continue; }
            std::size_t r = o["r"].GetUint() - 1;
            int sev = recs[static_cast<rapidjson::SizeType>(r)]["sev"].GetInt();
            auto once = [&] {
                const bh::string_view view = msgs[r]->view();
                bh::attribute_pack pack{attrs[r]->list};
                lg->log(sev, bh::lazy_message_t{view, [&] { return view; }}, pack);
            };
            G.out.clear();
            if (op == "log") {
                std::string st = outcome(once, ok);
                // What was given to asynchronous sinks is let through.
                std::size_t& due = expected[o["l"].GetUint() - 1];
                due += o["w"].GetUint();
                for (int i = 0; i < 15000; i++) {
                    {
                        std::lock_guard<std::mutex> lock(G.mutex);
                        if (G.async[o["l"].GetUint() - 1].size() >= due) break;
                    }
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
                }
                ev(head + st + ",\"out\":" + shown(G.out) + disk(p) + "}");
                continue;
            }
            { std::lock_guard<std::mutex> lock(G.mutex); G.gate = G.flood = true; G.got = 0; }
            // What waits is let through when nothing has moved for long.
            std::atomic<int> given(0);
            std::atomic<bool> done(false);
            int before = -1;
            const long tid = syscall(SYS_gettid);
            std::thread opener([&] {
                int last = -1;
                for (int quiet = 0, still = 0; quiet < 200 && still < 2000 && !done;) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(5));
                    int now = given;
                    if (now != last) { last = now; quiet = still = 0; continue; }
                    still++;
                    // Waiting, or only not given a processor?
                    std::ifstream f("/proc/self/task/" + std::to_string(tid) + "/stat");
                    std::string s;
                    std::getline(f, s);
                    auto k = s.rfind(')');
                    if (k == std::string::npos || k + 2 >= s.size() || s[k + 2] == 'S') quiet++; else quiet = 0;
                }
                before = given;
                std::lock_guard<std::mutex> l2(G.mutex);
                G.gate = false;
                G.cv.notify_all();
            });
            for (int i = 0; i < o["n"].GetInt(); i++) { once(); given++; }
            done = true;
            opener.join();
            // Until nothing more comes.
            int seen = -1;
            for (int quiet = 0; quiet < 150;) {
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                std::lock_guard<std::mutex> lock(G.mutex);
                if (G.got == o["n"].GetInt()) break;
                if (G.got == seen) quiet++; else { seen = G.got; quiet = 0; }
            }
            std::lock_guard<std::mutex> lock(G.mutex);
            G.flood = false;
            ev(head + "\"st\":\"ok\",\"before\":" + std::to_string(before) + ",\"got\":" + std::to_string(G.got) + "}");
        } else if (op == "drop") {
            std::size_t k = o["l"].GetUint() - 1;
            std::string st = "\"st\":\"skipped\"";
            if (logs[k]) {
                G.out.clear();
                logs[k].reset();
                st = "\"st\":\"ok\",\"async\":[";
                std::lock_guard<std::mutex> lock(G.mutex);
                for (std::size_t i = 0; i < G.async[k].size(); i++)
                    st += (i ? ",{" : "{") + G.async[k][i].where.substr(1) + ",\"b\":" + bytes(G.async[k][i].b) + "}";
                st += "]" + disk(p);
            }
            ev(head + st + ",\"live\":" + std::to_string(G.live) + "}");
        } else if (op == "move") {
            rename(unbytes(o["from"]).c_str(), unbytes(o["to"]).c_str());
            ev(head + "\"st\":\"ok\"" + disk(p) + "}");
        }
    }
    logs.clear();
}
int gone(const char* path, const struct stat*, int, struct FTW*) { return remove(path); }

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    char dir[] = "/tmp/verif_builder_XXXXXX";
    if (!mkdtemp(dir)) { perror("mkdtemp"); return 3; }
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string sub = std::string(dir) + "/p";
        if (mkdir(sub.c_str(), 0700)) { perror("mkdir"); return 3; }
        std::string st = forked([&] { if (chdir(sub.c_str())) _exit(3); run(d); });
        nftw(sub.c_str(), gone, 8, FTW_DEPTH | FTW_PHYS);
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    rmdir(dir);
    return 0;
}
