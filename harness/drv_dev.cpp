// Drives real development handlers under the controlled scheduler, with a recording buffer in the
// place of standard output's own, which is or is not a terminal.
// A program: {"cfg":{"recs":[...],"tty":0|1}, "how":["builder"|"factory"|"registry"..], "threads":[[[handler,record]..]..], "breaks":[n..]}
#include "common.hpp"
#include "values.hpp"
#include "sched.hpp"
#include "explore.hpp"
#include "iohooks.hpp"

#include <streambuf>
#include <thread>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/handler.hpp"
#include "blackhole/handler/dev.hpp"
#include "blackhole/registry.hpp"

#include <boost/optional/optional.hpp>

using namespace h;

static int tty = 0;
extern "C" int isatty(int fd) {
    if (fd == 1) return tty;
    errno = ENOTTY;
    return 0;
}
static thread_local bool clock_set = false;
static thread_local struct timespec clock_now;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (id == CLOCK_REALTIME && clock_set) { *ts = clock_now; return 0; }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

namespace {

typedef bh::experimental::handler::dev_t dev_type;

struct state_t {
    int tid[64] = {0};
    std::vector<int> breaks;
    race::var_t<int> writes{0};
} G;

int me() { int s = sched::self(); return s >= 0 && s < 64 ? G.tid[s] : 0; }

struct rec_buf_t : public std::streambuf {
    std::string head(const char* e) { return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(me()); }
    void out(const char* p, std::size_t n) {
        race::quiet_t q;
        sched::yield_point();
        G.writes++;
        for (int b : G.breaks) if (b == G.writes) {
            ev(head("break") + "}");
            throw std::runtime_error("stream broken");
        }
        ev(head("w") + ",\"b\":" + bytes(p, n) + "}");
        sched::yield_point();
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override { out(p, static_cast<std::size_t>(n)); return n; }
    int overflow(int c) override {
        if (c == EOF) return 0;
        char x = static_cast<char>(c);
        out(&x, 1);
        return static_cast<unsigned char>(x);
    }
    int sync() override {
        race::quiet_t q;
        sched::yield_point();
        ev(head("flush") + "}");
        return 0;
    }
};

void run_program(const val_t& p) {
    auto& cfg = p["cfg"];
    tty = cfg["tty"].GetInt();
    ::setenv("TZ", "XXX-05:30", 1);   // the block's time is in UTC whatever the zone
    ::tzset();
    for (auto& b : p["breaks"].GetArray()) G.breaks.push_back(b.GetInt());
    static rec_buf_t bo;
    std::cout.rdbuf(&bo);
    if (!G.breaks.empty()) std::cout.exceptions(std::ios::badbit | std::ios::failbit);

    auto reg = bh::registry::configured();
    reg->add<dev_type>(*reg);
    std::stringstream js("{\"type\": \"dev\"}");
    auto config = bh::config::factory_traits<bh::config::json_t>::construct(js);
    std::vector<std::unique_ptr<bh::handler_t>> hs;
    for (auto& h : p["how"].GetArray()) {
        std::string how = str(h);
        if (how == "builder") hs.push_back(bh::builder<dev_type>().build());
        else if (how == "factory") hs.push_back(bh::factory<dev_type>(*reg).from(config->config()));
        else hs.push_back(reg->handler("dev")(config->config()));
    }
    auto body = [&](int t, const val_t& ops) {
        { race::quiet_t q; G.tid[sched::self()] = t; }
        for (auto& op : ops.GetArray()) {
            int k = op[0].GetInt(), n = op[1].GetInt();
            const val_t& r = cfg["recs"][static_cast<rapidjson::SizeType>(n - 1)];
            buf_t message(unbytes(r["m"]));
            lists_t lists(r["a"]);
            bh::string_view view = message.view();
            bh::record_t record(static_cast<int>(sint(r["sev"])), std::cref(view), std::cref(lists.pack));
            std::unique_ptr<buf_t> formatted;
            if (r.HasMember("f")) formatted.reset(new buf_t(unbytes(r["f"])));
            clock_now.tv_sec = static_cast<time_t>(r["t"]["d"].GetInt()) * 86400 + r["t"]["s"].GetInt();
            clock_now.tv_nsec = r["t"]["u"].GetInt() * 1000 + r["t"]["n"].GetInt();
            bh::string_view fview;
            clock_set = true;
            if (formatted) { fview = formatted->view(); record.activate(fview); } else record.activate();
            clock_set = false;
            ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"r\":" + std::to_string(n) + ",\"tid\":" +
               uval(static_cast<unsigned long long>(record.tid())) + ",\"pid\":" + uval(static_cast<unsigned long long>(getpid())) + "}");
            const char* res = "ok";
            try { hs[static_cast<std::size_t>(k - 1)]->handle(record); } catch (...) { res = "exc"; }
            ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
            if (!G.breaks.empty()) std::cout.clear();
        }
    };
    std::vector<std::thread> ths;
    int t = 0;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    hs.clear();
    std::cout.exceptions(std::ios::goodbit);
    std::cout.rdbuf(nullptr);
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
