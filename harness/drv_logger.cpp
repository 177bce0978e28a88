// Drives real loggers with recording doubles under the controlled scheduler.
// Program: {"id","cfg":{"wraps":[attrs..],"filters":[{...}]},"configs":[{"f":n,"how":"ctor|ctorf|builder","hs":[{"k","n","nest"?}]}],
//           "scopes":[attrs..],"wrappers":[{"base":lg or -wrapper,"copy":0..2}],"setup":[ops],"threads":[[ops]],"teardown":[ops]}
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"

#include <map>
#include <thread>

#include <boost/optional/optional.hpp>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/filter.hpp"
#include "blackhole/filter/severity.hpp"
#include "blackhole/formatter.hpp"
#include "blackhole/handler.hpp"
#include "blackhole/handler/blocking.hpp"
#include "blackhole/message.hpp"
#include "blackhole/root.hpp"
#include "blackhole/scope/holder.hpp"
#include "blackhole/scope/manager.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/wrapper.hpp"
#include "src/handler/blocking.hpp"

namespace bh = blackhole;
using namespace h;

namespace {

struct op_t { const val_t* d; };
thread_local std::vector<const val_t*> ops;      // unfinished log operations of this thread
thread_local int tno = 0;
struct scope_store_t { std::vector<std::pair<int, std::unique_ptr<bh::scope::holder_t>>> v; };

struct world_t {
    const val_t* prog = nullptr;
    // Fixed slots: threads use different ones, or loggers made before the threads started.
    std::unique_ptr<bh::root_logger_t> lgs[64];
    std::unique_ptr<bh::root_logger_t>& lg(int i) { return lgs[i]; }
    bh::root_logger_t& at(int i) { if (!lgs[i]) { fprintf(stderr, "no logger %d\n", i); _exit(3); } return *lgs[i]; }
    std::map<int, std::unique_ptr<bh::wrapper_t>> wr;
    std::vector<std::shared_ptr<bh::filter_t>> sev;
    std::chrono::system_clock::time_point start;
    int fd = -1;
    off_t off = 0;
    std::string part;
} W;
thread_local int depth = 0;

long now() { return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now() - W.start).count(); }

const char* const NAMES = "err-";
void drain() {
    race::quiet_t quiet;
    std::cout.flush();
    fflush(stdout);
    char b[4096];
    ssize_t n;
    while ((n = pread(W.fd, b, sizeof b, W.off)) > 0) { W.part.append(b, static_cast<size_t>(n)); W.off += n; }
    size_t p;
    while ((p = W.part.find('\n')) != std::string::npos) {
        std::string line = W.part.substr(0, p);
        W.part.erase(0, p + 1);
        std::string e = "?";
        size_t a = line.find(NAMES);
        if (a != std::string::npos) { size_t z = line.find('#', a); e = z == std::string::npos ? "?" : line.substr(a, z - a); }
        else if (line.find("unknown") != std::string::npos) e = "unknown";
        h::ev("{\"e\":\"diag\",\"err\":" + q(e) + ",\"line\":" + q(line) + "}");
    }
}
void lev(const std::string& s) { drain(); h::ev(s); }
std::string T() { return ",\"t\":" + std::to_string(tno); }

std::string rec_json(const bh::record_t& r) {
    std::string a = "[";
    bool first = true;
    for (const auto& list : r.attributes()) for (const auto& kv : list.get()) {
        if (!first) a += ',';
        first = false;
        a += proj_attr(kv.first, kv.second);
    }
    long ts = r.is_active() ? std::chrono::duration_cast<std::chrono::microseconds>(r.timestamp() - W.start).count() : 0;
    if (ts < -1000000000L) ts = -1000000000L;
    if (ts > 1000000000L) ts = 1000000000L;
    return "{\"sev\":\"" + std::to_string(static_cast<int>(r.severity())) + "\",\"msg\":\"" + hex(r.message().data(), r.message().size()) +
        "\",\"fmtd\":\"" + hex(r.formatted().data(), r.formatted().size()) + "\",\"attrs\":" + a + "],\"act\":" + (r.is_active() ? "1" : "0") +
        ",\"ts\":" + std::to_string(ts) + ",\"tid\":\"" + (pthread_equal(r.tid(), pthread_self()) ? "own" : "other") +
        "\",\"lwp\":\"" + (r.lwp() == static_cast<uint64_t>(syscall(SYS_gettid)) ? "own" : "other") + "\"}";
}

void run_op(const val_t& op);
// What the current call does at the given place: nested operations and failures.
struct place_t {
    std::string err;   // name thrown
    std::string kind;
    explicit place_t(const std::string& key) {
        if (ops.empty()) return;
        const val_t& op = *ops.back();
        if (op.HasMember("fail") && op["fail"].HasMember(key)) {
            kind = str(op["fail"][key]);
            err = kind == "int" ? "unknown" : std::string("err-") + std::to_string(op["n"].GetInt()) + "-" + key;
        }
    }
    void nest(const std::string& key) {
        sched::yield_point();
        if (!ops.empty() && depth < 3) {
            const val_t& op = *ops.back();
            if (op.HasMember("nest") && op["nest"].HasMember(key)) {
                depth++;
                for (auto& o : op["nest"][key].GetArray()) run_op(o);
                depth--;
            }
        }
        sched::yield_point();
    }
    void finish() {
        if (err.empty()) return;
        if (kind == "int") throw 42;
        if (kind == "sys") throw std::system_error(EPIPE, std::system_category(), err + "#");
        if (kind == "bad") { struct e_t : std::exception { std::string s; const char* what() const noexcept override { return s.c_str(); } } e; e.s = err + "#"; throw e; }
        throw std::runtime_error(err + "#");
    }
};

// Filters: copyable functor that notices being copied from while it is destroyed.
struct ftomb_t {   // logs when the last copy of a filter is gone
    const val_t* nest;
    ~ftomb_t() {
        if (depth >= 3 || !tno) return;
        depth++;
        for (auto& o : nest->GetArray()) if (W.lg(o["lg"].GetInt())) run_op(o);
        depth--;
    }
};
struct functor_t {
    int f;
    int* alive;
    std::shared_ptr<ftomb_t> tomb;
    explicit functor_t(int f) : f(f), alive(new int(1)) {
        const val_t& d = (*W.prog)["cfg"]["filters"][static_cast<rapidjson::SizeType>(f - 1)];
        if (d.HasMember("nest")) tomb.reset(new ftomb_t{&d["nest"]});
    }
    functor_t(const functor_t& o) : f(o.f), alive(new int(1)), tomb(o.tomb) {
        int* a = o.alive;
        sched::yield_point();
        if (*a != 1) h::ev("{\"e\":\"torn\"}");
    }
    functor_t(functor_t&& o) noexcept : f(o.f), alive(new int(1)), tomb(std::move(o.tomb)) {}
    ~functor_t() { *alive = 0; }   // leaked on purpose: stays readable
    bool operator()(const bh::record_t& r) const {
        int* a = alive;
        const val_t& d = (*W.prog)["cfg"]["filters"][static_cast<rapidjson::SizeType>(f - 1)];
        lev("{\"e\":\"fb\"" + T() + ",\"f\":" + std::to_string(f) + ",\"rec\":" + rec_json(r) + "}");
        place_t p("f");
        p.nest("f");
        if (*a != 1) h::ev("{\"e\":\"torn\"}");
        bool pass = true;
        if (p.err.empty()) {
            std::string kind = str(d["kind"]);
            if (kind == "sev") pass = W.sev[static_cast<size_t>(f - 1)]->filter(r) != bh::filter_t::action_t::deny;
            else if (kind == "mod") pass = ((static_cast<int>(r.severity()) % 3) + 3) % 3 != d["m"].GetInt();
            else if (kind == "none") pass = false;
        }
        std::string lim = "[]";
        if (!ops.empty() && ops.back()->HasMember("lim")) lim = explore::compact((*ops.back())["lim"]);
        lev("{\"e\":\"fe\"" + T() + ",\"lim\":" + lim + ",\"res\":\"" + (!p.err.empty() ? "throw" : pass ? "pass" : "deny") + "\"}");
        p.finish();
        return pass;
    }
};

struct id_t_ { int c, hh; };
std::string CH(int c, int hh) { return ",\"c\":" + std::to_string(c) + ",\"h\":" + std::to_string(hh); }

// Tells when a handler has been destroyed.
struct tomb_t {
    int c, hh; const val_t* nest;
    ~tomb_t() {
        lev("{\"e\":\"hd\"" + CH(c, hh) + "}");
        sched::yield_point();
        if (nest && depth < 3 && tno) {
            depth++;
            for (auto& o : nest->GetArray()) if (W.lg(o["lg"].GetInt())) run_op(o);
            depth--;
        }
        sched::yield_point();
    }
};

struct plain_t : public bh::handler_t {
    int c, hh; std::unique_ptr<tomb_t> tomb;
    plain_t(int c, int hh, const val_t* nest) : c(c), hh(hh), tomb(new tomb_t{c, hh, nest}) {}
    auto handle(const bh::record_t& r) -> void override {
        lev("{\"e\":\"hb\"" + T() + CH(c, hh) + ",\"rec\":" + rec_json(r) + ",\"now\":" + std::to_string(now()) + "}");
        place_t p("h" + std::to_string(hh));
        p.nest("h" + std::to_string(hh));
        lev("{\"e\":\"he\"" + T() + ",\"err\":" + q(p.err) + "}");
        p.finish();
    }
};
struct fmt_t : public bh::formatter_t {
    int c, hh;
    fmt_t(int c, int hh) : c(c), hh(hh) {}
    auto format(const bh::record_t& r, bh::writer_t& w) -> void override {
        lev("{\"e\":\"ob\"" + T() + CH(c, hh) + ",\"rec\":" + rec_json(r) + ",\"now\":" + std::to_string(now()) + "}");
        place_t p("h" + std::to_string(hh));
        w.inner << hh << ':';
        p.nest("h" + std::to_string(hh));
        w.inner << bh::fmt::StringRef(r.formatted().data(), r.formatted().size());
        auto s = w.result();
        lev("{\"e\":\"oe\"" + T() + ",\"err\":" + q(p.err) + ",\"txt\":\"" + hex(s.data(), s.size()) + "\"}");
        p.finish();
    }
};
struct snk_t : public bh::sink_t {
    int c, hh, s; std::shared_ptr<tomb_t> tomb;
    snk_t(int c, int hh, int s, std::shared_ptr<tomb_t> tomb) : c(c), hh(hh), s(s), tomb(std::move(tomb)) {}
    auto emit(const bh::record_t& r, const bh::string_view& text) -> void override {
        lev("{\"e\":\"kb\"" + T() + CH(c, hh) + ",\"s\":" + std::to_string(s) + ",\"rec\":" + rec_json(r) + ",\"txt\":\"" +
            hex(text.data(), text.size()) + "\",\"now\":" + std::to_string(now()) + "}");
        std::string key = "h" + std::to_string(hh) + "s" + std::to_string(s);
        place_t p(key);
        p.nest(key);
        lev("{\"e\":\"ke\"" + T() + ",\"err\":" + q(p.err) + "}");
        p.finish();
    }
};
// A formatter that keeps the tomb alive even when a handler has no sinks.
struct fmt_tomb_t : public fmt_t {
    std::shared_ptr<tomb_t> tomb;
    fmt_tomb_t(int c, int hh, std::shared_ptr<tomb_t> t) : fmt_t(c, hh), tomb(std::move(t)) {}
};

std::unique_ptr<bh::handler_t> handler(int c, int hh, const val_t& d) {
    const val_t* nest = d.HasMember("nest") ? &d["nest"] : nullptr;
    if (str(d["k"]) == "plain") return std::unique_ptr<bh::handler_t>(new plain_t(c, hh, nest));
    std::shared_ptr<tomb_t> tomb(new tomb_t{c, hh, nest});
    int n = d["n"].GetInt();
    std::unique_ptr<bh::formatter_t> f(new fmt_tomb_t(c, hh, tomb));
    if (d.HasMember("ctor")) {
        std::vector<std::unique_ptr<bh::sink_t>> sinks;
        for (int s = 1; s <= n; s++) sinks.emplace_back(new snk_t(c, hh, s, tomb));
        return std::unique_ptr<bh::handler_t>(new bh::handler::blocking_t(std::move(f), std::move(sinks)));
    }
    bh::builder<bh::handler::blocking_t> b;
    b.set(std::move(f));
    for (int s = 1; s <= n; s++) b.add(std::unique_ptr<bh::sink_t>(new snk_t(c, hh, s, tomb)));
    return std::move(b).build();
}

bh::attributes_t owned(const val_t& d) {
    bh::attributes_t r;
    for (auto& a : d.GetArray()) {
        std::string k = unhex(str(a[0])), kind = str(a[1]), v = str(a[2]);
        if (kind == "nil") r.emplace_back(k, bh::attribute::value_t(nullptr));
        else if (kind == "bool") r.emplace_back(k, bh::attribute::value_t(v == "1"));
        else if (kind == "sint") r.emplace_back(k, bh::attribute::value_t(static_cast<int64_t>(std::stoll(v))));
        else if (kind == "uint") r.emplace_back(k, bh::attribute::value_t(static_cast<uint64_t>(std::stoull(v))));
        else if (kind == "dbl") { uint64_t b = std::stoull(v); double x; memcpy(&x, &b, 8); r.emplace_back(k, bh::attribute::value_t(x)); }
        else r.emplace_back(k, bh::attribute::value_t(unhex(v)));
    }
    return r;
}

bh::logger_t& target(const val_t& op) {
    auto& ws = op["ws"];
    if (ws.Empty()) return W.at(op["lg"].GetInt());
    return *W.wr.at(ws[0].GetInt());
}

struct held_t { int id; std::unique_ptr<bh::scope::holder_t> s; };
thread_local std::vector<held_t> held;

void run_op(const val_t& op) {
    std::string o = str(op["o"]);
    if (o == "log") {
        std::unique_ptr<buf_t> msg(new buf_t(unhex(str(op["msg"]))));
        std::vector<std::unique_ptr<attrs_t>> as;
        bh::attribute_pack pack;
        std::string flat = "[";
        bool first = true;
        for (auto& l : op["attrs"].GetArray()) {
            as.emplace_back(new attrs_t(l));
            pack.emplace_back(as.back()->list);
            for (auto& a : l.GetArray()) { if (!first) flat += ','; first = false; flat += explore::compact(a); }
        }
        std::string kind = str(op["kind"]);
        lev("{\"e\":\"log\"" + T() + ",\"lg\":" + std::to_string(op["lg"].GetInt()) + ",\"ws\":" + explore::compact(op["ws"]) + ",\"sev\":\"" +
            std::to_string(op["sev"].GetInt()) + "\",\"msg\":\"" + str(op["msg"]) + "\",\"lazy\":" + (kind == "lazy" ? "true" : "false") +
            ",\"attrs\":" + flat + "],\"now\":" + std::to_string(now()) + "}");
        ops.push_back(&op);
        std::string res = "ok";
        bh::severity_t sev = op["sev"].GetInt();
        try {
            bh::message_t m(msg->view());
            std::unique_ptr<buf_t> fm;
            if (kind == "lazy") {
                std::function<bh::string_view()> fn = [&]() -> bh::string_view {
                    lev("{\"e\":\"sb\"" + T() + "}");
                    place_t p("s");
                    p.nest("s");
                    bool null = op.HasMember("nullval");
                    lev("{\"e\":\"se\"" + T() + ",\"res\":\"" + (p.err.empty() ? "ok" : "throw") + "\",\"val\":\"" + str(op[null ? "msg" : "val"]) + "\"}");
                    p.finish();
                    if (null) return {};
                    fm.reset(new buf_t(unhex(str(op["val"]))));
                    return fm->view();
                };
                bh::lazy_message_t lm{m, fn};
                target(op).log(sev, lm, pack);
            } else if (kind == "pack") target(op).log(sev, m, pack);
            else target(op).log(sev, m);
        } catch (...) { res = "exc"; }
        ops.pop_back();
        lev("{\"e\":\"ret\"" + T() + ",\"res\":\"" + res + "\"}");
        msg->poison();
        for (auto& a : as) a->poison();
    } else if (o == "set") {
        int f = op["f"].GetInt();
        lev("{\"e\":\"set\"" + T() + ",\"lg\":" + std::to_string(op["lg"].GetInt()) + ",\"f\":" + std::to_string(f) + "}");
        W.at(op["lg"].GetInt()).filter(functor_t(f));
        lev("{\"e\":\"cret\"" + T() + "}");
    } else if (o == "new") {
        int c = op["c"].GetInt(), lg = op["lg"].GetInt();
        const val_t& d = (*W.prog)["configs"][static_cast<rapidjson::SizeType>(c - 1)];
        int f = d["f"].GetInt();
        std::string how = str(d["how"]);
        std::vector<std::unique_ptr<bh::handler_t>> hs;
        int hh = 0;
        std::string shape = "[";
        for (auto& x : d["hs"].GetArray()) {
            hs.push_back(handler(c, ++hh, x));
            if (hh > 1) shape += ',';
            shape += "{\"k\":\"" + str(x["k"]) + "\",\"n\":" + std::to_string(x.HasMember("n") ? x["n"].GetInt() : 0) + "}";
        }
        std::unique_ptr<bh::root_logger_t> l;
        if (how == "ctorf") l.reset(new bh::root_logger_t(functor_t(f), std::move(hs)));
        else if (how == "builder") {
            bh::builder<bh::root_logger_t> b;
            for (auto& x : hs) b.add(std::move(x));
            l = std::move(b).build();
        } else l.reset(new bh::root_logger_t(std::move(hs)));
        lev("{\"e\":\"new\"" + T() + ",\"lg\":" + std::to_string(lg) + ",\"c\":" + std::to_string(c) + ",\"f\":" + std::to_string(how == "ctorf" ? f : 0) +
            ",\"shape\":" + shape + "]}");
        W.lg(lg) = std::move(l);
    } else if (o == "assign") {
        int lg = op["lg"].GetInt(), src = op["src"].GetInt();
        lev("{\"e\":\"assign\"" + T() + ",\"lg\":" + std::to_string(lg) + ",\"src\":" + std::to_string(src) + "}");
        auto& dst = W.at(lg);
        auto& s = W.at(src);
        dst = std::move(s);
        lev("{\"e\":\"cret\"" + T() + "}");
    } else if (o == "move") {
        int lg = op["lg"].GetInt(), src = op["src"].GetInt();
        std::unique_ptr<bh::root_logger_t> l(new bh::root_logger_t(std::move(W.at(src))));
        lev("{\"e\":\"move\"" + T() + ",\"lg\":" + std::to_string(lg) + ",\"src\":" + std::to_string(src) + "}");
        W.lg(lg) = std::move(l);
    } else if (o == "del") {
        int lg = op["lg"].GetInt();
        lev("{\"e\":\"del\"" + T() + ",\"lg\":" + std::to_string(lg) + "}");
        auto p = std::move(W.lg(lg));
        p.reset();
    } else if (o == "wrap") {
        int w = op["w"].GetInt(), base = op["base"].GetInt(), copies = op["copy"].GetInt();
        bh::logger_t& b = base > 0 ? static_cast<bh::logger_t&>(W.at(base)) : *W.wr.at(-base);
        std::unique_ptr<bh::wrapper_t> p(new bh::wrapper_t(b, owned((*W.prog)["cfg"]["wraps"][static_cast<rapidjson::SizeType>(w - 1)])));
        for (int i = 0; i < copies; i++) {
            std::unique_ptr<bh::wrapper_t> c(i % 2 ? new bh::wrapper_t(std::move(*p)) : new bh::wrapper_t(*p));
            p = std::move(c);
        }
        W.wr[w] = std::move(p);
    } else if (o == "open") {
        int id = op["id"].GetInt();
        const val_t& a = (*W.prog)["scopes"][static_cast<rapidjson::SizeType>(id - 1)];
        std::unique_ptr<bh::scope::holder_t> s(new bh::scope::holder_t(target(op), owned(a)));
        lev("{\"e\":\"open\"" + T() + ",\"lg\":" + std::to_string(op["lg"].GetInt()) + ",\"id\":" + std::to_string(id) + ",\"attrs\":" + explore::compact(a) + "}");
        held.push_back(held_t{id, std::move(s)});
    } else if (o == "close") {
        if (held.empty()) return;
        auto x = std::move(held.back());
        held.pop_back();
        x.s.reset();
        lev("{\"e\":\"close\"" + T() + ",\"id\":" + std::to_string(x.id) + "}");
    } else if (o == "yield") sched::yield_point();
}

void run_program(const val_t& p) {
    W.prog = &p;
    W.start = std::chrono::system_clock::now();
    W.start -= W.start.time_since_epoch() % std::chrono::microseconds(1);
    W.fd = static_cast<int>(syscall(SYS_memfd_create, "out", 0));
    dup2(W.fd, 1);
    for (auto& f : p["cfg"]["filters"].GetArray()) {
        std::shared_ptr<bh::filter_t> s;
        if (str(f["kind"]) == "sev") {
            std::stringstream js;
            js << "{\"type\":\"severity\",\"threshold\":" << str(f["thr"]) << "}";
            auto cf = bh::config::factory_traits<bh::config::json_t>::construct(js);
            s = bh::factory<bh::filter::severity_t>().from(cf->config());
        }
        W.sev.push_back(s);
    }
    tno = 1;
    for (auto& o : p["setup"].GetArray()) run_op(o);
    std::vector<std::thread> ths;
    int n = 1;
    for (auto& os : p["threads"].GetArray()) {
        n++;
        ths.emplace_back([n, &os] {
            tno = n;
            for (auto& o : os.GetArray()) run_op(o);
            while (!held.empty()) { auto x = std::move(held.back()); held.pop_back(); x.s.reset(); lev("{\"e\":\"close\"" + T() + ",\"id\":" + std::to_string(x.id) + "}"); }
        });
    }
    for (auto& t : ths) t.join();
    for (auto& o : p["teardown"].GetArray()) run_op(o);
    while (!held.empty()) { auto x = std::move(held.back()); held.pop_back(); x.s.reset(); lev("{\"e\":\"close\"" + T() + ",\"id\":" + std::to_string(x.id) + "}"); }
    W.wr.clear();
    std::vector<int> left;
    for (int i = 0; i < 64; i++) if (W.lgs[i]) left.push_back(i);
    for (int l : left) {
        lev("{\"e\":\"del\"" + T() + ",\"lg\":" + std::to_string(l) + "}");
        auto x = std::move(W.lg(l));
        x.reset();
    }
    drain();
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
