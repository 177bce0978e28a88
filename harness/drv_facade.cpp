// The logger facade: patterns with arguments, at run time and at compile time, with and without attributes.
//   drv_facade PROGRAMS OUT [shard nshards]
#include "common.hpp"

#include <functional>
#include <thread>

#include "blackhole/attributes.hpp"
#include "blackhole/extensions/facade.hpp"
#include "blackhole/handler.hpp"
#include "blackhole/message.hpp"
#include "blackhole/record.hpp"
#include "blackhole/root.hpp"
#include "blackhole/wrapper.hpp"

namespace {

using namespace h;

thread_local int streamed;
thread_local std::function<void()>* nested;      // to be called once in the middle of a conversion
void converted() {
    streamed++;
    if (nested && *nested) { auto fn = std::move(*nested); *nested = nullptr; fn(); }
}
struct user_t { std::string s; };
std::ostream& operator<<(std::ostream& o, const user_t& u) { converted(); return o.write(u.s.data(), static_cast<std::streamsize>(u.s.size())); }

}  // namespace
namespace blackhole { inline namespace v1 { namespace detail {
template<> struct format_traits<user_t> {
    static void format(fmt::MemoryWriter& w, const user_t& u) { ::converted(); w << fmt::StringRef(u.s.data(), u.s.size()); }
};
} } }
namespace {

std::string plain(const val_t& d) {
    std::string s;
    for (auto& x : d.GetArray()) s += static_cast<char>('0' + x.GetInt());
    return s.empty() ? "0" : s;
}
long long sint(const val_t& v) { return strtoll(((v["neg"].GetBool() ? "-" : "") + plain(v["d"])).c_str(), nullptr, 10); }
unsigned long long uint(const val_t& v) { return strtoull(plain(v["d"]).c_str(), nullptr, 10); }
double real(const val_t& v) { return strtod(((v["neg"].GetBool() ? "-0." : "0.") + plain(v["d"]) + "e" + std::to_string(v["e"].GetInt())).c_str(), nullptr); }

// Calls f with the argument as a value of its C++ type ("c").
template<class F> void one(const val_t& v, F f) {
    std::string c = str(v["c"]);
    if (c == "int") f(static_cast<int>(sint(v)));
    else if (c == "short") f(static_cast<short>(sint(v)));
    else if (c == "long") f(static_cast<long>(sint(v)));
    else if (c == "llong") f(sint(v));
    else if (c == "uint") f(static_cast<unsigned>(uint(v)));
    else if (c == "ushort") f(static_cast<unsigned short>(uint(v)));
    else if (c == "ulong") f(static_cast<unsigned long>(uint(v)));
    else if (c == "ullong") f(uint(v));
    else if (c == "bool") f(v["v"].GetBool());
    else if (c == "double") f(real(v));
    else if (c == "float") f(static_cast<float>(real(v)));
    else if (c == "char") f(static_cast<char>(v["v"].GetInt()));
    else if (c == "schar") f(static_cast<signed char>(v["v"].GetInt()));
    else if (c == "uchar") f(static_cast<unsigned char>(v["v"].GetInt()));
    else if (c == "cstr") { std::string s = unbytes(v["v"]); f(static_cast<const char*>(s.c_str())); }
    else if (c == "user") f(user_t{unbytes(v["v"])});
    else f(unbytes(v["v"]));
}
// The same by kind only, to bound the number of combinations.
template<class F> void kind(const val_t& v, F f) {
    std::string t = str(v["t"]);
    if (t == "i") f(static_cast<long>(sint(v)));
    else if (t == "u") f(static_cast<unsigned long>(uint(v)));
    else if (t == "b") f(v["v"].GetBool());
    else if (t == "d") f(real(v));
    else if (t == "c") f(static_cast<char>(v["v"].GetInt()));
    else if (v.HasMember("user")) f(user_t{unbytes(v["v"])});
    else f(unbytes(v["v"]));
}
template<class F> void few(const val_t& v, F f) {
    std::string t = str(v["t"]);
    if (t == "i") f(static_cast<int>(sint(v)));
    else if (t == "d") f(real(v));
    else f(unbytes(v["v"]));
}

template<class Facade> void run_time(Facade& f, int sev, const bh::string_view& p, const val_t& args, const bh::attribute_list* attrs) {
    auto go = [&](const auto&... xs) { if (attrs) f.log(sev, p, xs..., *attrs); else f.log(sev, p, xs...); };
    switch (args.Size()) {
        case 0: go(); break;
        case 1: one(args[0], [&](const auto& a) { go(a); }); break;
        case 2: kind(args[0], [&](const auto& a) { kind(args[1], [&](const auto& b) { go(a, b); }); }); break;
        default:
            few(args[0], [&](const auto& a) { few(args[1], [&](const auto& b) { few(args[2], [&](const auto& c) {
                if (args.Size() == 3) go(a, b, c); else go(a, b, c, "literal", 7u);
            }); }); });
    }
}

struct i { static long of(const val_t& v) { return static_cast<long>(sint(v)); } };
struct u { static unsigned of(const val_t& v) { return static_cast<unsigned>(uint(v)); } };
struct b { static bool of(const val_t& v) { return v["v"].GetBool(); } };
struct d { static double of(const val_t& v) { return real(v); } };
struct c { static unsigned char of(const val_t& v) { return static_cast<unsigned char>(v["v"].GetInt()); } };
struct s { static std::string of(const val_t& v) { return unbytes(v["v"]); } };
struct U { static user_t of(const val_t& v) { return user_t{unbytes(v["v"])}; } };
template<class Facade, class F, class... Ts, std::size_t... Is>
void call(Facade& f, int sev, const F& pattern, const val_t& args, std::index_sequence<Is...>) { f.log(sev, pattern, Ts::of(args[static_cast<unsigned>(Is)])...); }
#define CT(text, ...) if (k++ == n) { constexpr auto p = bh::detail::formatter<bh::detail::literal_count(text)>(text); return types<__VA_ARGS__>::call(f, sev, p, args); }
template<class... Ts> struct types {
    template<class Facade, class F> static void call(Facade& f, int sev, const F& p, const val_t& args) { ::call<Facade, F, Ts...>(f, sev, p, args, std::index_sequence_for<Ts...>()); }
};
template<class Facade> void compile_time(Facade& f, int sev, int n, const val_t& args) {
    int k = 0;
#include "ct_patterns.def"
}

thread_local std::string records;
thread_local std::function<void()> in_handler, in_argument;
thread_local bool deny;
class handler_t : public bh::handler_t {
public:
    auto handle(const bh::record_t& r) -> void override {
        if (in_handler) { auto fn = std::move(in_handler); in_handler = nullptr; fn(); }
        std::string a;
        for (auto& l : r.attributes()) for (auto& kv : l.get()) a += (a.empty() ? "" : ",") + proj_attr(kv.first, kv.second);
        records += std::string(records.empty() ? "" : ",") + "{\"msg\":" + bytes(r.message().to_string()) + ",\"fmt\":" + bytes(r.formatted().to_string())
            + ",\"sev\":" + std::to_string(static_cast<int>(r.severity())) + ",\"attrs\":[" + a + "]}";
    }
};
template<class Logger> void call(Logger& l, const val_t& c) {
    bh::logger_facade<Logger> f(l);
    buf_t p(unbytes(c["pat"]));
    std::unique_ptr<attrs_t> attrs;
    if (c.HasMember("attrs")) attrs.reset(new attrs_t(c["attrs"]));
    std::string kind = str(c["kind"]);
    int sev = c["sev"].GetInt();
    if (kind == "ct") compile_time(f, sev, c["ct"].GetInt(), c["args"]);
    else run_time(f, sev, p.view(), c["args"], attrs ? &attrs->list : nullptr);
}

void run(const val_t& p) {
    std::vector<std::unique_ptr<bh::handler_t>> hs;
    hs.emplace_back(new handler_t);
    bh::root_logger_t root([&](const bh::record_t&) { return !deny; }, std::move(hs));
    std::unique_ptr<bh::wrapper_t> wrap;
    if (p.HasMember("wrap")) {
        bh::attributes_t a;
        for (auto& x : p["wrap"].GetArray()) a.emplace_back(unhex(str(x[0])), bh::attribute::value_t(unhex(str(x[2]))));
        wrap.reset(new bh::wrapper_t(root, std::move(a)));
    }
    auto any = [&](const val_t& c) {
        if (wrap && p.HasMember("base")) call<bh::logger_t>(*wrap, c);
        else if (wrap) call(*wrap, c);
        else call(root, c);
    };
    auto result = [&](const val_t& c) -> std::string {
        deny = c.HasMember("deny");
        records.clear();
        streamed = 0;
        nested = &in_argument;
        in_handler = in_argument = nullptr;
        if (c.HasMember("inner")) (str(c["via"]) == "handler" ? in_handler : in_argument) = [&] { any(c["inner"]); };
        std::string st = "ok";
        try { any(c); }
        catch (const bh::fmt::FormatError&) { st = "format_error"; }
        catch (...) { st = exc_name(std::current_exception()); }
        return "{\"e\":\"call\",\"st\":" + q(st) + ",\"recs\":[" + records + "],\"streamed\":" + std::to_string(streamed) + "}";
    };
    auto& calls = p["calls"];
    unsigned n = calls.Size(), m = p.HasMember("threads") ? p["threads"].GetUint() : 1;
    std::vector<std::string> res(n);
    auto work = [&](unsigned t) {
        for (int again = 0; again < (m > 1 ? 20 : 1); again++)
            for (unsigned i = t; i < n; i += m) {
                std::string r = result(calls[i]);
                if (!again) res[i] = r;
                else if (res[i] != r) res[i] = "{\"e\":\"unstable\",\"first\":" + res[i] + ",\"then\":" + r + "}";
            }
    };
    std::vector<std::thread> ts;
    for (unsigned t = 1; t < m; t++) ts.emplace_back(work, t);
    work(0);
    for (auto& t : ts) t.join();
    for (auto& r : res) ev(r);
}

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string st = forked([&] { run(d); });
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    return 0;
}
