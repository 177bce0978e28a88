// Runs programs under many schedules, each in a forked child, and writes the distinct traces.
#pragma once
#include "common.hpp"
#include "sched.hpp"

namespace explore {

typedef void (*run_t)(const h::val_t&);

inline void child(const h::val_t& p, run_t run, const sched::options_t& o) {
    using namespace h;
    sched::choices = reinterpret_cast<sched::choice_t*>(shm()->choices);
    sched::choices_n = &shm()->nchoices;
    sched::choices_cap = sizeof(shm()->choices) / sizeof(sched::choice_t);
    sched::on_stuck = [](const char* what) { set_status(what); _exit(9); };
    // Output of the code under test goes nowhere unless a driver redirects it.
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!getenv("DRV_STDERR")) dup2(nul, 2);
    if (&race::report) race::report = [](const char* json) { ev(json); };
    sched::start(o);
    run(p);
    sched::stop();
}

inline std::string compact(const h::val_t& v) {
    rapidjson::StringBuffer sb;
    rapidjson::Writer<rapidjson::StringBuffer> w(sb);
    v.Accept(w);
    return sb.GetString();
}

struct out_t {
    std::ofstream f;
    std::unordered_set<std::string> seen;
    uint64_t runs = 0, distinct = 0;
};

inline void emit_trace(out_t& out, const h::val_t& p, const std::string& st, const std::string& how, bool dedupe) {
    using namespace h;
    out.runs++;
    std::string evs(shm()->buf, shm()->len);
    if (!evs.empty()) evs += ',';
    evs += "{\"e\":\"end\",\"st\":" + q(st) + "}";
    // Volatile fields (thread ids, clocks) do not make a trace distinct.
    if (dedupe) {
        std::string key = std::to_string(p["id"].GetInt()) + "|";
        for (size_t i = 0; i < evs.size();) {
            bool hit = false;
            for (const char* f : {"\"ts\":", "\"tid\":", "\"lwp\":", "\"now\":"}) {
                size_t n = strlen(f);
                if (evs.compare(i, n, f) != 0) continue;
                i += n;
                if (evs[i] == '"') i = evs.find('"', i + 1) + 1;
                else while (i < evs.size() && evs[i] != ',' && evs[i] != '}') i++;
                hit = true;
                break;
            }
            if (hit) continue;
            key += evs[i++];
        }
        if (!out.seen.insert(key).second) return;
    }
    out.distinct++;
    out.f << "{\"id\":" << p["id"].GetInt() << ",\"cfg\":" << compact(p["cfg"]) << ",\"how\":" << how << ",\"ev\":[" << evs << "]}\n";
}

inline std::string choices_json() {
    using namespace h;
    auto* c = reinterpret_cast<sched::choice_t*>(shm()->choices);
    std::string r = "[";
    for (uint32_t i = 0; i < shm()->nchoices; i++) { if (i) r += ','; r += std::to_string(c[i].taken); }
    return r + "]";
}

inline int main(int argc, char** argv, run_t run) {
    using namespace h;
    shm_init();
    if (argc >= 4 && std::string(argv[1]) == "--replay") {
        // REPLAY: {"program":{...},"how":{"mode":m,"seed":s,"depth":d} or {"choices":[...]}}
        std::ifstream in(argv[2]);
        std::stringstream ss; ss << in.rdbuf();
        doc_t d; d.Parse(ss.str().c_str());
        if (d.HasParseError()) return 3;
        out_t out; out.f.open(argv[3]);
        sched::options_t o;
        auto& how = d["how"];
        if (how.HasMember("choices")) { o.mode = sched::PREFIX; for (auto& x : how["choices"].GetArray()) o.prefix.push_back(static_cast<uint16_t>(x.GetUint())); }
        else { o.mode = how["mode"].GetInt(); o.seed = how["seed"].GetUint64(); o.depth = how["depth"].GetInt(); }
        std::string st = forked([&] { child(d["program"], run, o); });
        emit_trace(out, d["program"], st, compact(how), false);
        return 0;
    }
    if (argc < 7) { fprintf(stderr, "usage\n"); return 3; }
    std::ifstream in(argv[1]);
    out_t out; out.f.open(argv[2]);
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    int schedules = atoi(argv[4]), shard = atoi(argv[5]), nshards = atoi(argv[6]);
    int dfs_runs = argc > 7 ? atoi(argv[7]) : 0;      // runs of bounded systematic search per program
    int dfs_bound = argc > 8 ? atoi(argv[8]) : 2;     // preemption bound
    std::string line;
    int n = 0;
    uint64_t exhausted = 0, programs = 0;
    bool done = false;
    while (std::getline(in, line)) {
        if (n++ % nshards != shard) continue;
        doc_t p; p.Parse(line.c_str());
        if (p.HasParseError()) { fprintf(stderr, "bad program line\n"); return 3; }
        if (done) break;
        programs++;
        int bad = 0;
        for (int s = 0; s < schedules && bad < 3 && !done; s++) {
            sched::options_t o;
            o.seed = seed * 1000003ull + static_cast<uint64_t>(n) * 7919ull + static_cast<uint64_t>(s);
            o.mode = s % 3;
            o.depth = 1 + s % 5;
            std::string st = forked([&] { child(p, run, o); });
            if (st != "ok") bad++;
            done = enough(st);
            emit_trace(out, p, st, "{\"mode\":" + std::to_string(o.mode) + ",\"seed\":" + std::to_string(o.seed) +
                ",\"depth\":" + std::to_string(o.depth) + "}", true);
        }
        // Systematic search with a bounded number of preemptions (stateless, depth first).
        if (dfs_runs > 0 && bad < 3 && !done) {
            std::vector<std::vector<std::vector<uint16_t>>> open(static_cast<size_t>(dfs_bound) + 1);
            open[0].push_back({});
            uint64_t r = seed * 77 + static_cast<uint64_t>(n);
            int runs = 0;
            size_t pending = 1;
            while (pending > 0 && runs < dfs_runs && bad < 3 && !done) {
                size_t b = 0;
                while (open[b].empty()) b++;
                r = r * 6364136223846793005ull + 1442695040888963407ull;
                size_t at = static_cast<size_t>(r >> 33) % open[b].size();
                std::swap(open[b][at], open[b].back());
                auto prefix = open[b].back(); open[b].pop_back(); pending--;
                sched::options_t o; o.mode = sched::PREFIX; o.prefix = prefix;
                std::string st = forked([&] { child(p, run, o); });
                runs++;
                if (st != "ok") bad++;
            done = enough(st);
                emit_trace(out, p, st, "{\"choices\":" + choices_json() + "}", true);
                auto* c = reinterpret_cast<sched::choice_t*>(shm()->choices);
                uint32_t nc = shm()->nchoices;
                int used = 0;
                for (uint32_t i = 0; i < prefix.size() && i < nc; i++) used += c[i].taken >= c[i].free_;
                for (uint32_t i = static_cast<uint32_t>(prefix.size()); i < nc && pending < 300000; i++) {
                    for (uint16_t k = 0; k < c[i].n; k++) {
                        int cost = used + (k >= c[i].free_);
                        if (k == c[i].taken || cost > dfs_bound) continue;
                        std::vector<uint16_t> np;
                        np.reserve(i + 1);
                        for (uint32_t j = 0; j < i; j++) np.push_back(c[j].taken);
                        np.push_back(k);
                        open[static_cast<size_t>(cost)].push_back(std::move(np));
                        pending++;
                    }
                    used += c[i].taken >= c[i].free_;
                }
            }
            if (pending == 0) exhausted++;
        }
    }
    printf("{\"programs\":%llu,\"runs\":%llu,\"distinct\":%llu,\"dfs_complete\":%llu}\n", (unsigned long long)programs,
        (unsigned long long)out.runs, (unsigned long long)out.distinct, (unsigned long long)exhausted);
    return 0;
}

}  // namespace explore
