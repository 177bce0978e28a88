// Formatters: each program builds one formatter and formats records with it (or builds many string
// formatters in turn); what came out is written down byte by byte.
//
//   drv_format PROGRAMS OUT [shard nshards]
//
// See spec/TraceString.tla, TraceTskv.tla and TraceJson.tla for the meaning of the programs.
#include "common.hpp"
#include "values.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <time.h>

#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>

#include "blackhole/config/json.hpp"
#include "blackhole/config/factory.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "blackhole/extensions/writer.hpp"
#include "blackhole/formatter.hpp"
#include "blackhole/formatter/json.hpp"
#include "blackhole/formatter/string.hpp"
#include "blackhole/formatter/tskv.hpp"

// ---- the clock of records ----------------------------------------------------------------------
static bool clock_set = false;
static struct timespec clock_now;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (id == CLOCK_REALTIME && clock_set) { *ts = clock_now; return 0; }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

namespace {

using namespace h;

// JSON text for configurations: raw bytes but for what JSON requires escaping.
std::string jq(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
std::string jlist(const val_t& v) {
    std::string r = "[";
    for (auto& x : v.GetArray()) { if (r.size() > 1) r += ','; r += jq(unbytes(x)); }
    return r + "]";
}
std::string jmap(const val_t& v) {   // [[key, value]...]
    std::string r = "{";
    for (auto& x : v.GetArray()) { if (r.size() > 1) r += ','; r += jq(unbytes(x[0])) + ":" + jq(unbytes(x[1])); }
    return r + "}";
}
struct text_config_t {
    std::unique_ptr<bh::config::factory_t> f;
    explicit text_config_t(const std::string& text) {
        std::istringstream in(text);
        f = bh::config::factory_traits<bh::config::json_t>::construct(in);
    }
    const bh::config::node_t& node() { return f->config(); }
};

std::vector<std::string> strings(const val_t& v) {
    std::vector<std::string> r;
    for (auto& x : v.GetArray()) r.push_back(unbytes(x));
    return r;
}

std::unique_ptr<bh::formatter_t> make_string(const std::string& pattern, const val_t& d) {
    bool map = d.HasMember("map");
    if (d.HasMember("via") && str(d["via"]) == "factory") {
        std::string text = "{\"type\":\"string\",\"pattern\":" + jq(pattern);
        if (map) text += ",\"sevmap\":" + jlist(d["map"]);
        text_config_t c(text + "}");
        return bh::factory<bh::formatter::string_t>().from(c.node());
    }
    bh::builder<bh::formatter::string_t> b(pattern);
    if (map) {
        std::vector<std::string> names = strings(d["map"]);
        b.mapping([=](int severity, const std::string& spec, bh::writer_t& writer) {
            if (severity >= 0 && static_cast<size_t>(severity) < names.size())
                writer.write(spec, bh::fmt::StringRef(names[severity].data(), names[severity].size()));
            else writer.write(spec, severity);
        });
    }
    return std::move(b).build();
}

std::unique_ptr<bh::formatter_t> make_tskv(const val_t& d) {
    typedef bh::formatter::tskv_t tskv_t;
    if (str(d["via"]) == "factory") {
        std::string text = "{\"type\":\"tskv\"";
        if (d.HasMember("create")) text += ",\"create\":" + jmap(d["create"]);
        if (d.HasMember("rename")) text += ",\"rename\":" + jmap(d["rename"]);
        if (d.HasMember("remove")) text += ",\"remove\":" + jlist(d["remove"]);
        if (d.HasMember("times")) {
            text += ",\"mutate\":{";
            bool first = true;
            for (auto& x : d["times"].GetArray()) {
                if (!first) text += ',';
                first = false;
                text += jq(unbytes(x["name"])) + ":{\"strftime\":" + jq(unbytes(x["p"]));
                if (x.HasMember("gm")) text += std::string(",\"gmtime\":") + (x["gm"].GetBool() ? "true" : "false");
                text += "}";
            }
            text += "}";
        }
        text_config_t c(text + "}");
        return bh::factory<tskv_t>().from(c.node());
    }
    bh::builder<tskv_t> b;
    if (d.HasMember("create")) for (auto& x : d["create"].GetArray()) b.create(unbytes(x[0]), unbytes(x[1]));
    if (d.HasMember("rename")) for (auto& x : d["rename"].GetArray()) b.rename(unbytes(x[0]), unbytes(x[1]));
    if (d.HasMember("remove")) for (auto& x : d["remove"].GetArray()) b.remove(unbytes(x));
    if (d.HasMember("times")) for (auto& x : d["times"].GetArray()) {
        if (x.HasMember("gm")) b.timestamp(unbytes(x["name"]), unbytes(x["p"]), x["gm"].GetBool());
        else b.timestamp(unbytes(x["name"]), unbytes(x["p"]));
    }
    return std::move(b).build();
}

std::unique_ptr<bh::formatter_t> make_json(const val_t& d) {
    typedef bh::formatter::json_t json_t;
    if (str(d["via"]) == "factory") {
        std::string text = "{\"type\":\"json\"";
        if (d.HasMember("unique")) text += std::string(",\"unique\":") + (d["unique"].GetBool() ? "true" : "false");
        if (d.HasMember("newline")) text += std::string(",\"newline\":") + (d["newline"].GetBool() ? "true" : "false");
        if (d.HasMember("rename")) text += ",\"mapping\":" + jmap(d["rename"]);
        if (d.HasMember("format")) text += ",\"formatting\":" + jmap(d["format"]);
        if (d.HasMember("routes") || d.HasMember("rest")) {
            text += ",\"routing\":{";
            bool first = true;
            if (d.HasMember("routes")) for (auto& x : d["routes"].GetArray()) {
                if (!first) text += ',';
                first = false;
                text += jq(unbytes(x["to"])) + ":" + jlist(x["names"]);
            }
            if (d.HasMember("rest")) { if (!first) text += ','; text += jq(unbytes(d["rest"])) + ":\"*\""; }
            text += "}";
        }
        if (d.HasMember("map") || d.HasMember("stamp")) {
            text += ",\"mutate\":{";
            if (d.HasMember("map")) text += "\"severity\":" + jlist(d["map"]);
            if (d.HasMember("stamp")) text += std::string(d.HasMember("map") ? "," : "") + "\"timestamp\":" + jq(unbytes(d["stamp"]));
            text += "}";
        }
        text_config_t c(text + "}");
        return bh::factory<json_t>().from(c.node());
    }
    bh::builder<json_t> b;
    if (d.HasMember("unique") && d["unique"].GetBool()) b.unique();
    if (d.HasMember("newline") && d["newline"].GetBool()) b.newline();
    if (d.HasMember("rename")) for (auto& x : d["rename"].GetArray()) b.rename(unbytes(x[0]), unbytes(x[1]));
    if (d.HasMember("format")) for (auto& x : d["format"].GetArray()) b.format(unbytes(x[0]), unbytes(x[1]));
    if (d.HasMember("rest")) b.route(unbytes(d["rest"]));
    if (d.HasMember("routes")) for (auto& x : d["routes"].GetArray()) b.route(unbytes(x["to"]), strings(x["names"]));
    if (d.HasMember("map")) b.severity(strings(d["map"]));
    if (d.HasMember("stamp")) b.timestamp(unbytes(d["stamp"]));
    return std::move(b).build();
}

struct once_t {
    std::mutex m; std::condition_variable c; bool done = false;
    void set() { std::lock_guard<std::mutex> l(m); done = true; c.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return done; }); }
};

// Creates the record in the calling thread and hands it to fn.
void with_record(const val_t& r, const std::function<void(const bh::record_t&)>& fn) {
    buf_t message(unbytes(r["m"]));
    lists_t lists(r["a"]);
    bh::string_view view = message.view();
    bh::record_t record(static_cast<int>(sint(r["sev"])), std::cref(view), std::cref(lists.pack));
    std::unique_ptr<buf_t> formatted;
    const val_t& t = r["t"];
    clock_now.tv_sec = static_cast<time_t>(t["d"].GetInt()) * 86400 + t["s"].GetInt();
    clock_now.tv_nsec = t["u"].GetInt() * 1000 + t["n"].GetInt();
    if (r.HasMember("f")) formatted.reset(new buf_t(unbytes(r["f"])));
    clock_set = true;
    bh::string_view fview;
    if (formatted) { fview = formatted->view(); record.activate(fview); } else record.activate();
    clock_set = false;
    fn(record);
}

std::string format(bh::formatter_t& f, const bh::record_t& record) {
    std::string st = "ok", out;
    try {
        bh::writer_t wr;
        f.format(record, wr);
        out = wr.result().to_string();
    } catch (...) { st = exc_name(std::current_exception()); }
    char name[16] = {0};
    pthread_getname_np(record.tid(), name, sizeof name);
    return "{\"e\":\"fmt\",\"st\":" + q(st) + ",\"lwp\":" + uval(record.lwp()) + ",\"tid\":" + uval(static_cast<unsigned long long>(record.tid())) +
        ",\"thr\":" + bytes(std::string(name)) + ",\"out\":" + bytes(out) + "}";
}

void run(const val_t& p) {
    static std::string proc;
    if (p.HasMember("proc")) { proc = unbytes(p["proc"]); program_invocation_short_name = const_cast<char*>(proc.c_str()); }
    setenv("TZ", p.HasMember("tz") ? p["tz"].GetString() : "UTC0", 1);
    tzset();
    std::string kind = str(p["kind"]);
    const val_t& recs = p["recs"];
    if (kind == "patterns") {   // many string formatters
        for (auto& x : p["patterns"].GetArray()) {
            std::string st = "ok", out;
            try {
                auto f = make_string(unbytes(x), p);
                st = "made";
                with_record(recs[0], [&](const bh::record_t& r) {
                    bh::writer_t wr;
                    f->format(r, wr);
                    out = wr.result().to_string();
                });
                st = "ok";
            } catch (...) { st = (st == "made" ? "fmt:" : "new:") + exc_name(std::current_exception()); }
            ev("{\"e\":\"pat\",\"st\":" + q(st) + ",\"lwp\":" + uval(syscall(SYS_gettid)) + ",\"tid\":" + uval(pthread_self()) + ",\"pid\":" + uval(getpid()) + ",\"out\":" + bytes(out) + "}");
        }
        return;
    }
    std::unique_ptr<bh::formatter_t> f;
    std::string st = "ok";
    try {
        f = kind == "string" ? make_string(unbytes(p["pattern"]), p) : kind == "tskv" ? make_tskv(p) : make_json(p);
    } catch (...) { st = exc_name(std::current_exception()); }
    ev("{\"e\":\"made\",\"st\":" + q(st) + ",\"pid\":" + uval(getpid()) + "}");
    if (!f) return;
    if (p.HasMember("par")) {   // all records at once, again and again, each by a thread of its own
        int times = p["par"].GetInt();
        size_t n = recs.Size();
        std::vector<std::map<std::string, std::string>> outs(n);
        std::vector<std::unique_ptr<std::thread>> threads;
        std::atomic<size_t> ready{0};
        std::mutex turn;
        for (size_t i = 0; i < n; i++) {
            threads.emplace_back(new std::thread([&, i] {
                turn.lock();   // records take the time of the clock in turn
                with_record(recs[static_cast<rapidjson::SizeType>(i)], [&](const bh::record_t& x) {
                    turn.unlock();
                    ready++;
                    while (ready < n) {}
                    for (int k = 0; k < times; k++) {
                        std::string st = "ok", out;
                        try {
                            bh::writer_t wr;
                            f->format(x, wr);
                            out = wr.result().to_string();
                        } catch (...) { st = exc_name(std::current_exception()); }
                        if (!outs[i].count(st + out))
                            outs[i][st + out] = "{\"e\":\"fmt\",\"r\":" + std::to_string(i + 1) + ",\"st\":" + q(st) + ",\"lwp\":" + uval(x.lwp()) + ",\"tid\":" +
                                uval(static_cast<unsigned long long>(x.tid())) + ",\"thr\":" + bytes("drv_format") + ",\"out\":" + bytes(out) + "}";
                    }
                });
            }));
        }
        for (auto& t : threads) t->join();
        for (auto& o : outs) for (auto& kv : o) ev(kv.second);
        return;
    }
    for (auto& r : recs.GetArray()) {
        if (r.HasMember("thr")) {
            // The record comes from another thread, still running.
            once_t ready, stop;
            const bh::record_t* rec = nullptr;
            std::string name = unbytes(r["thr"]);
            std::thread t([&] {
                pthread_setname_np(pthread_self(), name.c_str());
                with_record(r, [&](const bh::record_t& x) { rec = &x; ready.set(); stop.wait(); });
            });
            ready.wait();
            ev(format(*f, *rec));
            stop.set();
            t.join();
        } else {
            with_record(r, [&](const bh::record_t& x) { ev(format(*f, x)); });
        }
    }
}

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string st = forked([&] { run(d); });
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    return 0;
}
