// JSON configurations: documents and what is read from them.
//   drv_config PROGRAMS OUT [shard nshards]
#include "common.hpp"

#include <boost/optional/optional.hpp>
#include <rapidjson/error/en.h>
#include <rapidjson/istreamwrapper.h>

#include "blackhole/config/factory.hpp"
#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/config/option.hpp"
#include "src/config/json.hpp"

namespace {

using namespace h;
namespace cfg = bh::config;

std::string number(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

std::string kinds(const cfg::node_t& n) {
    std::string r;
    auto add = [&](bool is, const char* k) { if (is) r += std::string(r.empty() ? "" : ",") + "\"" + k + "\""; };
    add(n.is_bool(), "bool"); add(n.is_sint64(), "sint"); add(n.is_uint64(), "uint"); add(n.is_double(), "double");
    add(n.is_string(), "string"); add(n.is_vector(), "vector"); add(n.is_object(), "object");
    return "[" + r + "]";
}
std::string dump(const cfg::node_t& n, const std::string& as) {
    std::string r = "{\"is\":" + kinds(n) + ",\"v\":";
    if (as == "bool" || (as.empty() && n.is_bool())) r += n.to_bool() ? "true" : "false";
    else if (as == "sint" || (as.empty() && n.is_sint64())) r += bytes(std::to_string(n.to_sint64()));
    else if (as == "uint" || (as.empty() && n.is_uint64())) r += bytes(std::to_string(n.to_uint64()));
    else if (as == "double" || (as.empty() && n.is_double())) r += bytes(number(n.to_double()));
    else if (as == "string" || (as.empty() && n.is_string())) r += bytes(n.to_string());
    else if (as == "each" || (as.empty() && n.is_vector())) {
        std::string x;
        n.each([&](const cfg::node_t& c) { x += (x.empty() ? "" : ",") + dump(c, ""); });
        r += "[" + x + "]";
    } else if (as == "each_map" || (as.empty() && n.is_object())) {
        std::string x;
        n.each_map([&](const std::string& k, const cfg::node_t& c) { x += (x.empty() ? "" : ",") + ("{\"k\":" + bytes(k)) + ",\"v\":" + dump(c, "") + "}"; });
        r += "[" + x + "]";
    } else r += "0";
    return r + "}";
}
// The same through an option.
std::string dump(const cfg::option<cfg::node_t>& o, const std::string& as) {
    if (!o) {
        if (o.to_bool() || o.to_sint64() || o.to_uint64() || o.to_double() || o.to_string() || o.unwrap()) return "";
        bool called = false;
        o.each([&](const cfg::node_t&) { called = true; });
        o.each_map([&](const std::string&, const cfg::node_t&) { called = true; });
        if (called || o["a"] || o[0]) return "";
        return "none";
    }
    const cfg::node_t& n = *o.unwrap();
    std::string is = "{\"is\":" + kinds(n) + ",\"v\":";
    if (as == "bool") return is + (*o.to_bool() ? "true" : "false") + "}";
    if (as == "sint") return is + bytes(std::to_string(*o.to_sint64())) + "}";
    if (as == "uint") return is + bytes(std::to_string(*o.to_uint64())) + "}";
    if (as == "double") return is + bytes(number(*o.to_double())) + "}";
    if (as == "string") return is + bytes(*o.to_string()) + "}";
    std::string x;
    if (as == "each") {
        o.each([&](const cfg::node_t& c) { x += (x.empty() ? "" : ",") + dump(c, ""); });
        return is + "[" + x + "]}";
    }
    if (as == "each_map") {
        o.each_map([&](const std::string& k, const cfg::node_t& c) { x += (x.empty() ? "" : ",") + ("{\"k\":" + bytes(k)) + ",\"v\":" + dump(c, "") + "}"; });
        return is + "[" + x + "]}";
    }
    return dump(n, as);
}

std::string outcome(const std::string& d) {
    return d == "none" ? "{\"e\":\"read\",\"st\":\"none\"}" : d.empty() ? "{\"e\":\"read\",\"st\":\"not none\"}" : "{\"e\":\"read\",\"st\":\"ok\",\"v\":" + d + "}";
}
uint64_t index(const val_t& d) {
    std::string s;
    for (auto& x : d.GetArray()) s += static_cast<char>('0' + x.GetInt());
    return s.empty() ? 0 : strtoull(s.c_str(), nullptr, 10);
}
// Walks from a node; steps into iterations happen inside their callbacks.
std::string walk(const cfg::node_t& node, const val_t& path, unsigned i, const std::string& as);
std::string walk(const cfg::option<cfg::node_t>& o, const val_t& path, unsigned i, const std::string& as) {
    if (i == path.Size()) return dump(o, as);
    const val_t& s = path[i];
    if (s.HasMember("k")) return walk(o[unbytes(s["k"])], path, i + 1, as);
    if (s.HasMember("i")) return walk(o[static_cast<size_t>(index(s["i"]))], path, i + 1, as);
    if (!o) return "none";
    return walk(*o.unwrap(), path, i, as);
}
std::string walk(const cfg::node_t& node, const val_t& path, unsigned i, const std::string& as) {
    if (i == path.Size()) return dump(node, as);
    const val_t& s = path[i];
    if (s.HasMember("k")) return walk(node[unbytes(s["k"])], path, i + 1, as);
    if (s.HasMember("i")) return walk(node[static_cast<size_t>(index(s["i"]))], path, i + 1, as);
    std::string r = "none";
    int n = 0;
    if (s.HasMember("each")) {
        if (node.is_vector()) node.each([&](const cfg::node_t& c) { if (n++ == s["each"].GetInt()) r = walk(c, path, i + 1, as); });
    } else if (node.is_object()) {
        node.each_map([&](const std::string&, const cfg::node_t& c) { if (n++ == s["map"].GetInt()) r = walk(c, path, i + 1, as); });
    }
    return r;
}

std::string deep_text(int n) {
    std::string a, z;
    for (int i = 0; i < n; i++) {
        a += i % 2 ? "{\"k\":" : "[";
        z += i % 2 ? '}' : ']';
    }
    return a + "42" + std::string(z.rbegin(), z.rend());
}

void run(const val_t& p) {
    bool deep = p.HasMember("deep");
    std::string text = deep ? deep_text(p["deep"].GetInt()) : unbytes(p["doc"]);
    std::unique_ptr<cfg::factory_t> f;
    try {
        if (p.HasMember("rvalue")) f = cfg::factory_traits<cfg::json_t>::construct(std::istringstream(text));
        else { std::istringstream in(text); f = cfg::factory_traits<cfg::json_t>::construct(in); }
        ev("{\"e\":\"parse\",\"st\":\"ok\"}");
    } catch (const std::exception& e) {
        // Where the library says that the document is wrong, by either of its algorithms.
        std::string lib;
        for (int k = 0; k < 2; k++) {
            rapidjson::Document d;
            std::istringstream in(text);
            rapidjson::IStreamWrapper w(in);
            if (k) d.ParseStream<rapidjson::kParseCommentsFlag | rapidjson::kParseTrailingCommasFlag | rapidjson::kParseIterativeFlag>(w);
            else d.ParseStream<rapidjson::kParseCommentsFlag | rapidjson::kParseTrailingCommasFlag>(w);
            if (!d.HasParseError()) continue;
            lib += (lib.empty() ? "" : ",") + ("{\"at\":" + bytes(std::to_string(d.GetErrorOffset()))) + ",\"why\":" + bytes(rapidjson::GetParseError_En(d.GetParseError())) + "}";
        }
        ev("{\"e\":\"parse\",\"st\":" + q(exc_name(std::current_exception())) + ",\"what\":" + bytes(e.what()) + ",\"lib\":[" + lib + "]}");
        return;
    }
    if (deep) {
        int d = 0;
        std::function<void(const cfg::option<cfg::node_t>&)> none;
        std::string st = "ok";
        int64_t v = 0;
        cfg::option<cfg::node_t> o = f->config()[0];
        // The path of a node is kept in it: going down step by step is quadratic, but bounded.
        for (d = 1; d < p["deep"].GetInt() && o; d++) o = d % 2 ? o["k"] : o[0];
        if (o) v = *o.to_sint64(); else st = "none";
        ev("{\"e\":\"bottom\",\"st\":" + q(st) + ",\"depth\":" + std::to_string(d) + ",\"v\":" + std::to_string(v) + "}");
        return;
    }
    for (auto& op : p["ops"].GetArray()) {
        std::string r;
        try {
            r = outcome(walk(f->config(), op["path"], 0, str(op["as"])));
        } catch (const cfg::type_mismatch& e) {
            r = "{\"e\":\"read\",\"st\":\"mismatch\",\"cursor\":" + bytes(e.cursor()) + ",\"expected\":" + q(e.expected()) + ",\"actual\":" + q(e.actual()) + "}";
        } catch (...) {
            r = "{\"e\":\"read\",\"st\":" + q("threw " + exc_name(std::current_exception())) + "}";
        }
        ev(r);
    }
}

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string st = forked([&] { run(d); });
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    return 0;
}
