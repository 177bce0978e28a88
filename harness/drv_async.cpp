// Drives the real asynchronous sink under the controlled scheduler.
// usage: drv_async PROGRAMS.ndjson OUT.ndjson SEED SCHEDULES SHARD NSHARDS
//        drv_async --replay REPLAY.json OUT.ndjson
// A program: {"id":n, "cfg":{cap,policy,fails:[v..],recs:[{...}]}, "factor":f, "policy":..., "via":...,
//             "threads":[[op...]...], "late":[[op...]...], "gate":bool}
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"

#include <set>
#include <thread>

#include "blackhole/config/json.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/asynchronous.hpp"
#include "src/sink/asynchronous.hpp"

namespace bh = blackhole;
using namespace h;

namespace {

struct state_t {
    race::var_t<bool> gate_closed{false};
    race::var_t<int> taken{0};
    std::set<std::string> fails;   // texts of records the wrapped sink fails on
    std::string failkind;
    std::vector<int> in_call;      // by thread
} G;

struct wrapped_t : public bh::sink_t {
    auto emit(const bh::record_t& r, const bh::string_view& text) -> void override {
        std::string t = hex(text.data(), text.size());
        std::string p = "{\"sev\":\"" + std::to_string(static_cast<int>(r.severity())) + "\",\"msg\":\"" +
            hex(r.message().data(), r.message().size()) + "\",\"fmtd\":\"" +
            hex(r.formatted().data(), r.formatted().size()) + "\",\"text\":\"" + t + "\",\"attrs\":" +
            proj_pack(r.attributes()) + "}";
        ev("{\"e\":\"wb\",\"rec\":" + p + ",\"ts\":\"" + ts_us(r.timestamp()) + "\",\"tid\":\"" + std::to_string(r.tid()) +
           "\",\"lwp\":\"" + std::to_string(r.lwp()) + "\"}");
        G.taken++;
        sched::yield_point();
        while (G.gate_closed) sched::idle();
        // The record must stay intact during the whole call.
        std::string again = "{\"sev\":\"" + std::to_string(static_cast<int>(r.severity())) + "\",\"msg\":\"" +
            hex(r.message().data(), r.message().size()) + "\",\"fmtd\":\"" +
            hex(r.formatted().data(), r.formatted().size()) + "\",\"text\":\"" + hex(text.data(), text.size()) + "\",\"attrs\":" +
            proj_pack(r.attributes()) + "}";
        if (again != p) ev("{\"e\":\"torn\"}");
        bool fail = G.fails.count(t) > 0;
        ev(std::string("{\"e\":\"we\",\"ok\":\"") + (fail ? "fail" : "ok") + "\"}");
        if (fail) {
            if (G.failkind == "int") throw 42;
            if (G.failkind == "sys") throw std::system_error(EPIPE, std::system_category());
            throw std::runtime_error("wrapped sink failure");
        }
    }
    ~wrapped_t() { ev("{\"e\":\"wdtor\"}"); }
};

struct rec_t {
    std::string msg, fmtd, text;
    bool has_fmtd;
    int sev;
    const val_t* attrs;
};

// Factory giving the registry access to the wrapped double.
class dfactory_t : public bh::factory<bh::sink_t> {
public:
    auto type() const noexcept -> const char* override { return "double"; }
    auto from(const bh::config::node_t&) const -> std::unique_ptr<bh::sink_t> override {
        return std::unique_ptr<bh::sink_t>(new wrapped_t);
    }
};

std::unique_ptr<bh::sink_t> make(const val_t& p) {
    std::string via = str(p["via"]), policy = str(p["policy"]);
    std::size_t factor = p["factor"].GetUint64();
    std::unique_ptr<bh::sink_t> w(new wrapped_t);
    if (via == "ctor") {
        return std::unique_ptr<bh::sink_t>(new bh::sink::asynchronous_t(std::move(w), factor,
            bh::sink::overflow_policy_factory_t().create(policy)));
    } else if (via == "ctor_default") {
        return std::unique_ptr<bh::sink_t>(new bh::sink::asynchronous_t(std::move(w), factor));
    } else if (via == "builder") {
        bh::builder<bh::sink::asynchronous_t> b(std::move(w));
        b.factor(factor);
        if (policy == "drop") b.drop(); else b.wait();
        return std::move(b).build();
    } else if (via == "builder_rv") {
        bh::builder<bh::sink::asynchronous_t> b(std::move(w));
        if (policy == "drop") return std::move(b).wait().factor(factor).drop().build();
        return std::move(b).drop().wait().factor(factor).build();
    } else if (via == "builder_default") {
        bh::builder<bh::sink::asynchronous_t> b(std::move(w));
        return std::move(b).factor(factor).build();
    } else if (via == "config") {
        w.release();   // never constructed through this path
        auto reg = bh::registry::empty();
        std::shared_ptr<bh::factory<bh::sink_t>> df(new dfactory_t);
        reg->add(df);
        bh::factory<bh::sink::asynchronous_t> f(*reg);
        std::stringstream js;
        js << "{\"type\":\"asynchronous\",\"factor\":" << factor << ",\"overflow\":\"" << policy
           << "\",\"sink\":{\"type\":\"double\"}}";
        auto cf = bh::config::factory_traits<bh::config::json_t>::construct(js);
        return f.from(cf->config());
    }
    fprintf(stderr, "bad via\n");
    exit(3);
}

void run_program(const val_t& p) {
    std::vector<rec_t> recs;
    for (auto& r : p["cfg"]["recs"].GetArray()) {
        rec_t x;
        x.msg = unhex(str(r["msg"]));
        x.fmtd = unhex(str(r["fmtd"]));
        x.has_fmtd = str(r["fmtd"]) != str(r["msg"]);
        x.text = unhex(str(r["text"]));
        x.sev = std::stoi(str(r["sev"]));
        x.attrs = &r["attrs"];
        recs.push_back(std::move(x));
    }
    for (auto& f : p["cfg"]["fails"].GetArray())
        G.fails.insert(hex(recs[static_cast<size_t>(f.GetInt() - 1)].text));
    G.failkind = p.HasMember("failkind") ? str(p["failkind"]) : "std";
    G.gate_closed = p["gate"].GetBool();
    G.in_call.assign(64, 0);

    std::unique_ptr<bh::sink_t> sink;
    sched::on_block = [](int tid, const char*) {
        if (tid < 64 && G.in_call[static_cast<size_t>(tid)])
            ev("{\"e\":\"blk\",\"t\":" + std::to_string(G.in_call[static_cast<size_t>(tid)]) + "}");
    };
    sink = make(p);

    auto emit_one = [&](int t, int v) {
        const rec_t& r = recs[static_cast<size_t>(v - 1)];
        std::vector<std::unique_ptr<attrs_t>> attrs;
        bh::attribute_pack pack;
        for (auto& l : r.attrs->GetArray()) {
            attrs.emplace_back(new attrs_t(l));
            pack.emplace_back(attrs.back()->list);
        }
        std::unique_ptr<buf_t> msg(new buf_t(r.msg)), fmtd(new buf_t(r.fmtd)), text(new buf_t(r.text));
        std::unique_ptr<bh::string_view> mv(new bh::string_view(msg->view())), fv(new bh::string_view(fmtd->view()));
        std::unique_ptr<bh::record_t> rec(new bh::record_t(r.sev, *mv, pack));
        if (r.has_fmtd) rec->activate(*fv); else rec->activate();
        ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"v\":" + std::to_string(v) + ",\"ts\":\"" + ts_us(rec->timestamp()) +
           "\",\"tid\":\"" + std::to_string(rec->tid()) + "\",\"lwp\":\"" + std::to_string(syscall(SYS_gettid)) + "\"}");
        G.in_call[static_cast<size_t>(sched::self())] = t;
        const char* res = "ok";
        try { sink->emit(*rec, text->view()); } catch (...) { res = "exc"; }
        G.in_call[static_cast<size_t>(sched::self())] = 0;
        ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
        msg->poison(); fmtd->poison(); text->poison();
        for (auto& a : attrs) a->poison();
        *mv = "overwritten";
        *fv = "overwritten";
        for (auto& a : attrs) { a->list.clear(); }
        pack.clear();
    };
    auto body = [&](int t, const val_t& ops) {
        for (auto& op : ops.GetArray()) {
            std::string o = str(op[0]);
            if (o == "emit") emit_one(t, op[1].GetInt());
            else if (o == "open") G.gate_closed = false;
            else if (o == "yield") sched::yield_point();
            else if (o == "idle") sched::idle();
            else if (o == "await") { while (G.taken < op[1].GetInt()) sched::idle(); ev("{\"e\":\"awaited\",\"n\":" + std::to_string(op[1].GetInt()) + "}"); }
        }
    };
    std::vector<std::thread> ths, late;
    int t = 0;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& ops : p["late"].GetArray()) { t++; late.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    ev("{\"e\":\"dcall\"}");
    sink.reset();
    ev("{\"e\":\"dret\"}");
    for (auto& th : late) th.join();
    sched::on_block = nullptr;
}

// Which constructions are accepted, and with which capacity.
int construct(const char* out) {
    shm_init();
    std::ofstream f(out);
    std::vector<unsigned long long> factors = {0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 15, 16, 19, 20, 21, 22, 31, 32, 33, 63, 64, 65, 255, 256, 258, 65538, 4294967298ull};
    std::vector<std::string> policies = {"wait", "drop", "", "Drop", "block", "wait "};
    int id = 0;
    for (std::string via : {"ctor", "builder", "config"}) {
        for (auto factor : factors) {
            for (auto& policy : policies) {
                if (factor >= 15 && policy != "drop") continue;
                if (factor >= 16 && factor <= 19 && via != "ctor") continue;
                if (via == "builder" && policy != "wait" && policy != "drop") continue;
                std::string st = forked([&] {
                    rapidjson::Document d; d.SetObject();
                    auto& a = d.GetAllocator();
                    d.AddMember("via", rapidjson::Value(via, a), a);
                    d.AddMember("policy", rapidjson::Value(policy, a), a);
                    d.AddMember("factor", rapidjson::Value(static_cast<uint64_t>(factor)), a);
                    std::string res = "ok";
                    size_t cap = 0; int has = 0;
                    try {
                        // Sinks log their destruction; this is not what is observed here.
                        auto len = shm()->len;
                        {
                            auto s = make(d);
                            if (auto* p = dynamic_cast<bh::sink::asynchronous_t*>(s.get())) { cap = p->capacity(); has = 1; }
                        }
                        shm()->len = len;
                    } catch (...) { shm()->len = 0; res = exc_name(std::current_exception()); }
                    ev("{\"e\":\"new\",\"via\":" + q(via) + ",\"factor\":" + std::to_string(factor > 1000000 ? 1000000 : factor) + ",\"policy\":" + q(policy) +
                       ",\"res\":" + q(res) + ",\"cap\":" + std::to_string(cap) + ",\"hascap\":" + std::to_string(has) + "}");
                }, 60000);
                std::string evs(shm()->buf, shm()->len);
                if (!evs.empty()) evs += ',';
                f << "{\"id\":" << id++ << ",\"cfg\":{\"via\":" << q(via) << ",\"policy\":" << q(policy) << ",\"factor\":" << (factor > 1000000 ? 1000000 : factor)
                  << "},\"ev\":[" << evs << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
            }
        }
    }
    return 0;
}

}  // namespace

int main(int argc, char** argv) {
    if (argc == 3 && std::string(argv[1]) == "--construct") return construct(argv[2]);
    return explore::main(argc, argv, run_program);
}
