// Drives real console sinks under the controlled scheduler, with recording buffers in the place of
// the standard streams' own and with streams that are or are not terminals.
// A program: {"cfg":{"sinks":[{stream,deny,fthrow,map}],"tty":[o,e]}, "how":[...], "threads":[[[k,sev,msg]..]..],
//             "flags":"hex"..., "breaks":[n..]}
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"
#include "iohooks.hpp"

#include <iomanip>
#include <streambuf>
#include <thread>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/filter.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/console.hpp"
#include "blackhole/termcolor.hpp"

#include <boost/optional/optional.hpp>

namespace bh = blackhole;
using namespace h;

static int tty[3] = {0, 0, 0};
extern "C" int isatty(int fd) {
    if (fd == 1 || fd == 2) return tty[fd];
    errno = ENOTTY;
    return 0;
}

namespace {

struct state_t {
    int tid[64] = {0};
    std::vector<int> breaks;
    race::var_t<int> writes{0};
} G;

int me() { int s = sched::self(); return s >= 0 && s < 64 ? G.tid[s] : 0; }

struct rec_buf_t : public std::streambuf {
    int id;
    explicit rec_buf_t(int i) : id(i) {}
    std::string head(const char* e) { return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(me()) + ",\"s\":" + std::to_string(id); }
    void out(const char* p, std::size_t n) {
        race::quiet_t q;
        sched::yield_point();
        G.writes++;
        for (int b : G.breaks) if (b == G.writes) {
            ev(head("break") + "}");
            throw std::runtime_error("stream broken");
        }
        ev(head("w") + ",\"b\":" + bytes(p, n) + "}");
        sched::yield_point();
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override { out(p, static_cast<std::size_t>(n)); return n; }
    int overflow(int c) override {
        if (c == EOF) return 0;
        char x = static_cast<char>(c);
        out(&x, 1);
        return static_cast<unsigned char>(x);
    }
    int sync() override {
        race::quiet_t q;
        sched::yield_point();
        ev(head("flush") + "}");
        return 0;
    }
};

bh::termcolor_t colour(int c) {
    switch (c) {
    case 0: return bh::termcolor_t::reset();
    case 2: return bh::termcolor_t::gray();
    case 31: return bh::termcolor_t::red();
    case 32: return bh::termcolor_t::green();
    case 33: return bh::termcolor_t::yellow();
    case 34: return bh::termcolor_t::blue();
    default: return bh::termcolor_t();
    }
}
struct map_failure {};

// Denies and throws as the configuration says.
class tf_t : public bh::filter_t {
    std::vector<int> deny, fthrow;
    int neutral;
public:
    tf_t(std::vector<int> d, std::vector<int> t, int n) : deny(d), fthrow(t), neutral(n) {}
    auto filter(const bh::record_t& r) -> action_t override {
        sched::yield_point();
        int s = r.severity();
        for (int x : fthrow) if (x == s) throw std::runtime_error("filter");
        for (int x : deny) if (x == s) return action_t::deny;
        return (s + neutral) % 2 ? action_t::neutral : action_t::accept;
    }
};
class tff_t : public bh::factory<bh::filter_t> {
public:
    auto type() const noexcept -> const char* override { return "tf"; }
    auto from(const bh::config::node_t& c) const -> std::unique_ptr<bh::filter_t> override {
        std::vector<int> d, t;
        c["deny"].each([&](const bh::config::node_t& n) { d.push_back(static_cast<int>(n.to_sint64())); });
        c["fthrow"].each([&](const bh::config::node_t& n) { t.push_back(static_cast<int>(n.to_sint64())); });
        return std::unique_ptr<bh::filter_t>(new tf_t(d, t, static_cast<int>(*c["neutral"].to_sint64())));
    }
};

std::unique_ptr<bh::sink_t> make(bh::registry_t& reg, const val_t& s, const val_t& how) {
    std::string h = str(how["by"]);
    if (h == "config") {
        std::stringstream js;
        js << "{\"type\":\"console\"";
        if (how.HasMember("filter")) js << ",\"filter\":" << explore::compact(how["filter"]);
        js << "}";
        auto f = bh::config::factory_traits<bh::config::json_t>::construct(js);
        return reg.sink("console")(f->config());
    }
    typedef bh::builder<bh::sink::console_t> b_t;
    b_t b;
    bool lv = h == "lv";
    bool first = how.HasMember("streamfirst");
    // The last choice of a stream is the one that counts.
    if (how.HasMember("other")) { if (s["stream"].GetInt() == 2) b.stdout(); else b.stderr(); }
    auto stream = [&] {
        if (s["stream"].GetInt() == 2) { if (lv) b.stderr(); else b = std::move(std::move(b).stderr()); }
        else if (how.HasMember("explicit") || how.HasMember("other")) { if (lv) b.stdout(); else b = std::move(std::move(b).stdout()); }
    };
    if (first) stream();
    for (auto& m : s["map"].GetArray()) {
        if (str(m["k"]) == "sev") {
            int sv = m["sev"].GetInt();
            auto c = colour(m["col"].GetInt());
            if (lv) b.colorize(bh::severity_t(sv), c); else b = std::move(std::move(b).colorize(bh::severity_t(sv), c));
        } else {
            std::vector<std::pair<int, int>> tab;
            for (auto& e : m["tab"].GetArray()) tab.emplace_back(e[0].GetInt(), e[1].GetInt());
            auto fn = [tab](const bh::record_t& r) -> bh::termcolor_t {
                sched::yield_point();
                for (auto& e : tab) if (e.first == r.severity()) {
                    if (e.second == -1) throw map_failure();
                    return colour(e.second);
                }
                return bh::termcolor_t();
            };
            if (lv) b.colorize(fn); else b = std::move(std::move(b).colorize(fn));
        }
    }
    if (!first) stream();
    return std::move(b).build();
}

void run_program(const val_t& p) {
    auto& cfg = p["cfg"];
    tty[1] = cfg["tty"][0].GetInt();
    tty[2] = cfg["tty"][1].GetInt();
    for (auto& b : p["breaks"].GetArray()) G.breaks.push_back(b.GetInt());
    static rec_buf_t bo(1), be(2);
    std::cout.rdbuf(&bo);
    std::cerr.rdbuf(&be);
    if (!G.breaks.empty()) { std::cout.exceptions(std::ios::badbit | std::ios::failbit); std::cerr.exceptions(std::ios::badbit); }
    for (auto& f : p["flags"].GetArray()) {
        std::string n = str(f);
        for (std::ostream* o : {&std::cout, &std::cerr}) {
            if (n == "hex") *o << std::hex << std::showbase;
            if (n == "oct") *o << std::oct;
            if (n == "pos") *o << std::showpos;
            if (n == "width") { *o << std::setfill('*'); o->width(8); }
            if (n == "left") *o << std::left;
        }
    }
    auto reg = bh::registry::configured();
    reg->add(std::shared_ptr<bh::factory<bh::filter_t>>(new tff_t));
    std::vector<std::unique_ptr<bh::sink_t>> sinks;
    for (rapidjson::SizeType i = 0; i < cfg["sinks"].Size(); i++) sinks.push_back(make(*reg, cfg["sinks"][i], p["how"][i]));
    auto body = [&](int t, const val_t& ops) {
        { race::quiet_t q; G.tid[sched::self()] = t; }
        for (auto& op : ops.GetArray()) {
            int k = op[0].GetInt(), sev = op[1].GetInt();
            std::unique_ptr<buf_t> msg(new buf_t(unbytes(op[2])));
            bh::attribute_pack pack;
            const bh::string_view um("unformatted");
            std::unique_ptr<bh::record_t> rec(new bh::record_t(bh::severity_t(sev), um, pack));
            rec->activate();
            ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k) + ",\"sev\":" + std::to_string(sev) +
               ",\"msg\":" + bytes(unbytes(op[2])) + "}");
            const char* res = "ok";
            try { sinks[static_cast<std::size_t>(k - 1)]->emit(*rec, msg->view()); } catch (...) { res = "exc"; }
            ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
            if (!G.breaks.empty()) { std::cout.clear(); std::cerr.clear(); }
        }
    };
    std::vector<std::thread> ths;
    int t = 0;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    sinks.clear();
    std::cout.exceptions(std::ios::goodbit);
    std::cerr.exceptions(std::ios::goodbit);
    std::cout.rdbuf(nullptr);
    std::cerr.rdbuf(nullptr);
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
