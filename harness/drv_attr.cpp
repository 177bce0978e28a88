// Attribute values and views: programs of constructions, copies, moves, views and reads.
//   drv_attr PROGRAMS OUT [shard nshards]
#include "common.hpp"

#include <deque>

namespace {

using namespace h;
using bh::attribute::value_t;
using bh::attribute::view_t;

const int CELLS = 4, VIEWS = 4;

std::string bits(double v) { uint64_t b; memcpy(&b, &v, 8); return std::to_string(b); }
double from_bits(const std::string& s) { uint64_t b = std::stoull(s); double d; memcpy(&d, &b, 8); return d; }

std::string pair(const char* k, const std::string& v) { return std::string("[\"") + k + "\"," + q(v) + "]"; }
// One description per type; functions are called twice.
std::string show(std::nullptr_t) { return pair("nil", ""); }
std::string show(bool v) { return pair("bool", v ? "1" : "0"); }
std::string show(int64_t v) { return pair("sint", std::to_string(v)); }
std::string show(uint64_t v) { return pair("uint", std::to_string(v)); }
std::string show(double v) { return pair("dbl", bits(v)); }
std::string show(const std::string& v) { return pair("str", hex(v)); }
std::string show(const bh::string_view& v) { return pair("str", hex(v.data(), v.size())); }
template<class F> std::string called(const F& f) {
    bh::writer_t a, b;
    b.write("before ");
    f(a);
    f(b);
    std::string x = a.result().to_string(), y = b.result().to_string();
    return pair(y == "before " + x ? "fn" : "fn twice", hex(x));
}
std::string show(const value_t::function_type& f) { return called(f); }
std::string show(const view_t::function_type& f) { return called(f); }

template<class V> struct visitor_t : public V::visitor_t {
    std::string r;
    int n = 0;
    void add(const std::string& s) { r = s; n++; }
    auto operator()(const typename V::null_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::bool_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::sint64_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::uint64_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::double_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::string_type& v) -> void override { add(show(v)); }
    auto operator()(const typename V::function_type& v) -> void override { add(show(v)); }
};
template<class T, class V> void get(const V& v, std::string& got, int& bad) {
    try {
        const T& x = bh::attribute::get<T>(v);
        got += (got.empty() ? "" : ",") + show(x);
    } catch (const std::bad_cast&) { bad++; }
}
void get_function(const view_t& v, std::string& got, int& bad) { get<view_t::function_type>(v, got, bad); }
void get_function(const value_t&, std::string&, int&) {}      // no public way to make or read one
template<class V> std::string read(const V& v) {
    visitor_t<V> vis;
    v.apply(vis);
    std::string got;
    int bad = 0;
    get<typename V::null_type>(v, got, bad);
    get<typename V::bool_type>(v, got, bad);
    get<typename V::sint64_type>(v, got, bad);
    get<typename V::uint64_type>(v, got, bad);
    get<typename V::double_type>(v, got, bad);
    get<typename V::string_type>(v, got, bad);
    get_function(v, got, bad);
    return "{\"e\":\"read\",\"visit\":" + (vis.n == 1 ? vis.r : "[\"visited " + std::to_string(vis.n) + " times\",\"\"]") + ",\"get\":[" + got + "],\"bad\":" + std::to_string(bad) + "}";
}

// Calls fn with a value of the C++ type the constructor is for.
template<class F> bool scalar(const std::string& c, const std::string& v, F fn) {
    if (c == "nil") fn(nullptr);
    else if (c == "bool") fn(v == "1");
    else if (c == "char") fn(static_cast<char>(std::stoi(v)));
    else if (c == "schar") fn(static_cast<signed char>(std::stoi(v)));
    else if (c == "short") fn(static_cast<short>(std::stoi(v)));
    else if (c == "int") fn(static_cast<int>(std::stoi(v)));
    else if (c == "long") fn(static_cast<long>(std::stol(v)));
    else if (c == "llong") fn(static_cast<long long>(std::stoll(v)));
    else if (c == "uchar") fn(static_cast<unsigned char>(std::stoul(v)));
    else if (c == "ushort") fn(static_cast<unsigned short>(std::stoul(v)));
    else if (c == "uint") fn(static_cast<unsigned int>(std::stoul(v)));
    else if (c == "ulong") fn(std::stoul(v));
    else if (c == "ullong") fn(std::stoull(v));
    else if (c == "float") fn(static_cast<float>(from_bits(v)));
    else if (c == "double") fn(from_bits(v));
    else return false;
    return true;
}
template<class F> void literal(const std::string& v, F fn) {
    if (v == "") fn("");
    else if (v == "x") fn("x");
    else if (v == std::string("a\0b", 3)) fn("a\0b");
    else if (v == "true") fn("true");
    else fn("a literal that is longer than small strings are");
}

struct world_t {
    typename std::aligned_storage<sizeof(value_t), alignof(value_t)>::type room[CELLS];
    view_t views[VIEWS];
    std::deque<std::string> texts;              // what views refer to
    std::deque<std::unique_ptr<char[]>> raw;
    std::deque<disp_t> objects;

    world_t() { for (int i = 0; i < CELLS; i++) new (&room[i]) value_t(); }
    ~world_t() { for (int i = 0; i < CELLS; i++) at(i).~value_t(); }
    value_t& at(int i) { return reinterpret_cast<value_t&>(room[i]); }

    template<class T> void put(int c, const std::string& how, T&& x) {
        if (how == "construct") { at(c).~value_t(); memset(&room[c], 0x5a, sizeof room[c]); new (&room[c]) value_t(std::forward<T>(x)); }
        else if (how == "copy") { const value_t t(std::forward<T>(x)); at(c) = t; }
        else if (how == "move") { value_t t(std::forward<T>(x)); at(c) = std::move(t); }
        else at(c) = value_t(std::forward<T>(x));
    }
    void set(const val_t& o) {
        std::string ctor = str(o["ctor"]), v = str(o["v"]), how = str(o["how"]);
        int c = o["c"].GetInt() - 1;
        if (scalar(ctor, v, [&](auto x) { put(c, how, x); })) return;
        if (ctor == "default") {
            if (how == "construct") { at(c).~value_t(); new (&room[c]) value_t(); }
            else at(c) = value_t();
        } else if (ctor == "lit") literal(unhex(v), [&](auto& x) { put(c, how, x); });
        else if (ctor == "str") { std::string s = unhex(v); put(c, how, s); s.assign(s.size(), 'Z'); }
    }
    void copy(int c, int f, const std::string& how, bool move) {
        if (how == "construct" && c != f) {
            at(c).~value_t();
            memset(&room[c], 0x5a, sizeof room[c]);
            if (move) new (&room[c]) value_t(std::move(at(f)));
            else new (&room[c]) value_t(const_cast<const value_t&>(at(f)));
        } else if (how == "vector" && c != f) {
            std::vector<std::pair<std::string, value_t>> v;
            if (move) v.emplace_back("k", std::move(at(f))); else v.emplace_back("k", at(f));
            for (int i = 0; i < 5; i++) v.insert(v.begin(), std::make_pair(std::string("other"), value_t(i)));
            std::vector<std::pair<std::string, value_t>> u(v);
            at(c) = std::move(u.back().second);
        } else if (how == "swap" && move && c != f) {
            value_t t;
            std::swap(t, at(f));
            std::swap(t, at(c));
        } else if (move) at(c) = std::move(at(f));
        else at(c) = const_cast<const value_t&>(at(f));
    }
    void vput(int w, const std::string& how, const view_t& x) {
        if (how == "construct") { memset(static_cast<void*>(&views[w]), 0x5a, sizeof(view_t)); new (&views[w]) view_t(x); }
        else if (how == "vector") {
            bh::attribute_list l;
            l.emplace_back("k", x);
            for (int i = 0; i < 40; i++) l.insert(l.begin(), {"other", i});
            views[w] = l.back().second;
        } else views[w] = x;
    }
    void vset(const val_t& o) {
        std::string ctor = str(o["ctor"]), v = str(o["v"]), how = str(o["how"]);
        int w = o["w"].GetInt() - 1;
        if (scalar(ctor, v, [&](auto x) { vput(w, how, view_t(x)); })) return;
        if (ctor == "default") vput(w, how, view_t());
        else if (ctor == "lit") literal(unhex(v), [&](auto& x) { vput(w, how, view_t(x)); });
        else if (ctor == "str") { texts.push_back(unhex(v)); vput(w, how, view_t(texts.back())); }
        else if (ctor == "sv" || ctor == "fn") {
            std::string s = unhex(v);
            raw.emplace_back(new char[s.size() ? s.size() : 1]);
            memcpy(raw.back().get(), s.data(), s.size());
            if (ctor == "sv") vput(w, how, view_t(bh::string_view(raw.back().get(), s.size())));
            else { objects.push_back(disp_t{raw.back().get(), s.size(), false}); vput(w, how, view_t(objects.back())); }
        }
    }
    void look(int w, int c, const std::string& how) {
        if (how == "list") {
            const view_t x = at(c);     // implicitly
            vput(w, "vector", x);
        } else vput(w, how, view_t(at(c)));
    }
};

std::string run_op(world_t& w, const val_t& o) {
    std::string op = str(o["op"]), how = o.HasMember("how") ? str(o["how"]) : "";
    auto i = [&](const char* k) { return o[k].GetInt() - 1; };
    if (op == "set") w.set(o);
    else if (op == "copy" || op == "move") w.copy(i("c"), i("from"), how, op == "move");
    else if (op == "look") w.look(i("w"), i("c"), how);
    else if (op == "vset") w.vset(o);
    else if (op == "vcopy") w.vput(i("w"), how, view_t(w.views[i("from")]));
    else if (op == "read") return read(const_cast<const value_t&>(w.at(i("c"))));
    else if (op == "vread") return read(const_cast<const view_t&>(w.views[i("w")]));
    else if (op == "eq") {
        const view_t& a = w.views[i("w")]; const view_t& b = w.views[i("x")];
        return std::string("{\"e\":\"eq\",\"eq\":") + (a == b ? "true" : "false") + ",\"ne\":" + (a != b ? "true" : "false") + "}";
    }
    return "{\"e\":\"done\",\"st\":\"ok\"}";
}
void run(const val_t& p) {
    std::unique_ptr<world_t> w(new world_t);
    for (auto& o : p["ops"].GetArray()) {
        std::string r;
        try { r = run_op(*w, o); }
        catch (...) { r = "{\"e\":\"done\",\"st\":" + q(exc_name(std::current_exception())) + "}"; }
        ev(r);
    }
}

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int shard = argc > 4 ? atoi(argv[3]) : 0, n = argc > 4 ? atoi(argv[4]) : 1;
    shm_init();
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    for (int i = 0; std::getline(in, line); i++) {
        if (i % n != shard || line.empty()) continue;
        doc_t d;
        d.Parse(line.c_str());
        if (d.HasParseError()) { fprintf(stderr, "bad program %d\n", i); return 3; }
        std::string st = forked([&] { run(d); });
        out << "{\"id\":" << i << ",\"cfg\":" << line << ",\"ev\":[" << std::string(shm()->buf, shm()->len) << (shm()->len ? "," : "")
            << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
        if (enough(st)) break;
    }
    return 0;
}
