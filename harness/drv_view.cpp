// String views: programs of constructions, parts, reads and comparisons over owned buffers.
//   drv_view PROGRAMS OUT [shard nshards]
#include <algorithm>        // the header uses what it does not include
#include "common.hpp"

#include <deque>

#include "blackhole/stdext/string_view.hpp"

namespace {

using namespace h;
typedef bh::string_view sv;

size_t num(const val_t& v) { return static_cast<size_t>(v.GetInt64()); }   // negative: the largest ones
std::string bytes(const char* p, size_t n) {
    std::string r = "[";
    for (size_t i = 0; i < n; i++) r += (i ? "," : "") + std::to_string(static_cast<unsigned char>(p[i]));
    return r + "]";
}
std::string bytes(const std::string& s) { return bytes(s.data(), s.size()); }

struct buffer_t { char* p; size_t n; };     // exactly as large as it has to be, or a string's

template<size_t N> sv literal(char (&a)[N], const std::string& s) { memcpy(a, s.data(), N - 1); return sv(const_cast<const char (&)[N]>(a)); }

struct world_t {
    std::deque<buffer_t> mem;
    std::deque<std::string> strings;
    std::deque<std::unique_ptr<char[]>> raw;
    typename std::aligned_storage<sizeof(sv), alignof(sv)>::type room[4];
    sv& at(int i) { return reinterpret_cast<sv&>(room[i]); }
    world_t() { for (int i = 0; i < 4; i++) { memset(&room[i], 0x5a, sizeof(sv)); new (&room[i]) sv(); } }

    void put(const val_t& o, const sv& v) {
        int s = o["s"].GetInt() - 1;
        if (o["how"] == "assign") at(s) = v;
        else { sv t(v); memset(&room[s], 0x5a, sizeof(sv)); new (&room[s]) sv(t); }
    }
    sv make(const std::string& s, const std::string& kind) {
        if (kind == "str") {
            strings.push_back(s);
            mem.push_back({&strings.back()[0], s.size()});
            return sv(strings.back());
        }
        size_t n = s.size();
        if (kind == "lit" && (n <= 3 || n == 20)) {
            raw.emplace_back(new char[n + 1]());
            char* p = raw.back().get();
            mem.push_back({p, n});
            switch (n) {
            case 0: return literal(*reinterpret_cast<char (*)[1]>(p), s);
            case 1: return literal(*reinterpret_cast<char (*)[2]>(p), s);
            case 2: return literal(*reinterpret_cast<char (*)[3]>(p), s);
            case 3: return literal(*reinterpret_cast<char (*)[4]>(p), s);
            default: return literal(*reinterpret_cast<char (*)[21]>(p), s);
            }
        }
        raw.emplace_back(new char[n]);
        char* p = raw.back().get();
        std::copy(s.begin(), s.end(), p);
        mem.push_back({p, n});
        return sv(p, n);
    }
    std::string read(const sv& v) {
        int buf = 0;
        long off = 0;
        for (size_t i = 0; i < mem.size() && v.size(); i++)
            if (v.data() >= mem[i].p && v.data() < mem[i].p + mem[i].n) { buf = i + 1; off = v.data() - mem[i].p; }
        if (v.size() && (!buf || off + v.size() > mem[buf - 1].n))
            return "{\"e\":\"done\",\"st\":\"outside its buffer: " + std::to_string(v.size()) + " at " + std::to_string(off) + "\"}";
        std::string x;
        for (size_t i = 0; i < v.size(); i++) x += v[i];
        std::ostringstream os;
        os << v;
        return "{\"e\":\"read\",\"size\":" + std::to_string(v.size()) + ",\"bytes\":" + bytes(x) + ",\"str\":" + bytes(v.to_string()) + ",\"out\":" + bytes(os.str())
            + ",\"buf\":" + std::to_string(buf) + ",\"off\":" + std::to_string(off) + "}";
    }
};

std::string run_op(world_t& w, const val_t& o) {
    std::string op = str(o["op"]);
    auto slot = [&](const char* k) -> sv& { return w.at(o[k].GetInt() - 1); };
    if (op == "make") {
        std::string s;
        for (auto& b : o["v"].GetArray()) s += static_cast<char>(b.GetInt());
        w.put(o, w.make(s, str(o["kind"])));
    } else if (op == "again") {
        auto& b = w.mem[o["b"].GetInt() - 1];
        w.put(o, sv(b.p, num(o["n"])));
    } else if (op == "default") w.put(o, sv());
    else if (op == "copy") w.put(o, slot("t"));
    else if (op == "substr") {
        const sv& t = slot("t");
        if (o["args"] == 0) w.put(o, t.substr());
        else if (o["args"] == 1) w.put(o, t.substr(num(o["pos"])));
        else w.put(o, t.substr(num(o["pos"]), num(o["count"])));
    } else if (op == "poke") w.mem[o["b"].GetInt() - 1].p[o["i"].GetInt()] = static_cast<char>(o["v"].GetInt());
    else if (op == "read") return w.read(slot("s"));
    else if (op == "at") return "{\"e\":\"at\",\"v\":" + std::to_string(static_cast<unsigned char>(slot("s")[num(o["i"])])) + "}";
    else if (op == "cmp") {
        const sv &a = slot("s"), &b = slot("t");
        auto is = [](bool x) { return x ? "true" : "false"; };
        std::string as = a.to_string(), bs = b.to_string();
        return std::string("{\"e\":\"cmp\",\"eq\":") + is(a == b) + ",\"es\":" + is(a == bs) + ",\"se\":" + is(as == b)
            + ",\"lt\":" + is(a < b) + ",\"gt\":" + is(b < a) + "}";
    }
    return "{\"e\":\"done\",\"st\":\"ok\"}";
}
void run(const val_t& p) {
    std::unique_ptr<world_t> w(new world_t);
    for (auto& o : p["ops"].GetArray()) {
        std::string r;
        try { r = run_op(*w, o); }
        catch (const std::out_of_range&) { r = "{\"e\":\"done\",\"st\":\"out_of_range\"}"; }
        catch (...) { r = "{\"e\":\"done\",\"st\":" + q(exc_name(std::current_exception())) + "}"; }
        ev(r);
    }
}

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string st = forked([&] { run(d); });
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    return 0;
}
