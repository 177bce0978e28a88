// Drives real syslog sinks under the controlled scheduler with the system's log functions replaced.
// A program: {"cfg":{"prios":[[..]..]}, "how":["json"|"direct"..], "setup":[ops], "threads":[[ops]..], "teardown":[ops]}
// ops: ["new",k] ["del",k] ["emit",k,sev,msg]
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"

#include <malloc.h>
#include <stdarg.h>
#include <syslog.h>

#include <new>
#include <thread>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/syslog.hpp"

namespace bh = blackhole;
using namespace h;

// Memory given back reads as garbage.
#if !defined(__SANITIZE_ADDRESS__)
void operator delete(void* p) noexcept {
    if (p) memset(p, 0xdd, malloc_usable_size(p));
    free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
#endif

namespace {
struct state_t {
    int tid[64] = {0};
    const char* ident = nullptr;
    int opt = -1, fac = -1;
} G;
int me() { int s = sched::self(); return s >= 0 && s < 64 ? G.tid[s] : 0; }
std::string ident() {
    if (!G.ident) return "";
    return std::string(G.ident, strnlen(G.ident, 200));
}
void point() { if (sched::active()) sched::yield_point(); }
void entry(int prio, const char* fmt, va_list ap) {
    point();
    race::quiet_t q;
    char* s = nullptr;
    int n = vasprintf(&s, fmt, ap);
    std::string text(s, n > 0 ? static_cast<std::size_t>(n) : 0);
    free(s);
    ev("{\"e\":\"syslog\",\"t\":" + std::to_string(me()) + ",\"prio\":" + std::to_string(prio) + ",\"text\":" + bytes(text) + ",\"ident\":" + h::q(ident()) + "}");
    point();
}
}

extern "C" {
void openlog(const char* id, int opt, int fac) {
    point();
    race::quiet_t q;
    G.ident = id; G.opt = opt; G.fac = fac;
    ev("{\"e\":\"openlog\",\"ident\":" + h::q(ident()) + ",\"opt\":" + std::to_string(opt) + ",\"fac\":" + std::to_string(fac) + "}");
    point();
}
void closelog() {
    point();
    race::quiet_t q;
    G.ident = nullptr;
    ev("{\"e\":\"closelog\"}");
    point();
}
void vsyslog(int prio, const char* fmt, va_list ap) { entry(prio, fmt, ap); }
void syslog(int prio, const char* fmt, ...) { va_list ap; va_start(ap, fmt); entry(prio, fmt, ap); va_end(ap); }
void __vsyslog_chk(int prio, int, const char* fmt, va_list ap) { entry(prio, fmt, ap); }
void __syslog_chk(int prio, int, const char* fmt, ...) { va_list ap; va_start(ap, fmt); entry(prio, fmt, ap); va_end(ap); }
}

namespace {

void run_program(const val_t& p) {
    auto& prios = p["cfg"]["prios"];
    auto reg = bh::registry::configured();
    std::vector<std::unique_ptr<bh::sink_t>> sinks(prios.Size());
    auto body = [&](int t, const val_t& ops) {
        { race::quiet_t q; G.tid[sched::self()] = t; }
        for (auto& op : ops.GetArray()) {
            std::string o = str(op[0]);
            int k = op[1].GetInt();
            auto& sink = sinks[static_cast<std::size_t>(k - 1)];
            if (o == "new") {
                std::string js = "{\"type\":\"syslog\"";
                auto& pr = prios[static_cast<rapidjson::SizeType>(k - 1)];
                if (!pr.Empty() || p["explicit"].GetInt()) js += ",\"priorities\":" + explore::compact(pr);
                std::stringstream ss(js + "}");
                auto f = bh::config::factory_traits<bh::config::json_t>::construct(ss);
                sink = reg->sink("syslog")(f->config());
                ev("{\"e\":\"new\",\"k\":" + std::to_string(k) + "}");
            } else if (o == "del") {
                ev("{\"e\":\"del\",\"k\":" + std::to_string(k) + "}");
                sink.reset();
            } else {
                std::string m = unbytes(op[3]);
                std::unique_ptr<buf_t> msg(new buf_t(m));
                bh::attribute_pack pack;
                const bh::string_view um("unformatted %s");
                std::unique_ptr<bh::record_t> rec(new bh::record_t(bh::severity_t(op[2].GetInt()), um, pack));
                rec->activate();
                ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k) + ",\"sev\":" + std::to_string(op[2].GetInt()) + ",\"msg\":" + bytes(m) + "}");
                const char* res = "ok";
                try { sink->emit(*rec, msg->view()); } catch (...) { res = "exc"; }
                ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
                msg->poison();
            }
        }
        { race::quiet_t q; G.tid[sched::self()] = 0; }
    };
    body(1, p["setup"]);
    std::vector<std::thread> ths;
    int t = 1;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    body(1, p["teardown"]);
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
