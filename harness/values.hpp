// Values of the formatters' programs: numbers as decimal digits, attributes as lists of lists.
#pragma once
#include "common.hpp"

namespace h {
namespace {

std::string digits(unsigned long long v) {
    std::string s = v ? std::to_string(v) : "", r = "[";
    for (size_t i = 0; i < s.size(); i++) { if (i) r += ','; r += s[i]; }
    return r + "]";
}
std::string uval(unsigned long long v) { return "{\"t\":\"u\",\"d\":" + digits(v) + "}"; }

std::string plain(const val_t& d) {   // digits to text
    std::string s;
    for (auto& x : d.GetArray()) s += static_cast<char>('0' + x.GetInt());
    return s.empty() ? "0" : s;
}
double real(const val_t& v) {   // 0.d * 10^e
    if (v.HasMember("x")) return strtod(v["x"].GetString(), nullptr);
    std::string s = v["neg"].GetBool() ? "-0." : "0.";
    s += plain(v["d"]) + "e" + std::to_string(v["e"].GetInt());
    return strtod(s.c_str(), nullptr);
}
int64_t sint(const val_t& v) { return strtoll(((v["neg"].GetBool() ? "-" : "") + plain(v["d"])).c_str(), nullptr, 10); }

// A record's attributes: list of lists of [key, value].
struct lists_t {
    std::vector<std::unique_ptr<buf_t>> bufs;
    std::vector<std::unique_ptr<disp_t>> fns;
    std::vector<std::unique_ptr<bh::attribute_list>> lists;
    bh::attribute_pack pack;

    bh::string_view keep(const val_t& v) {
        bufs.emplace_back(new buf_t(unbytes(v)));
        return bufs.back()->view();
    }
    explicit lists_t(const val_t& d) {
        for (auto& l : d.GetArray()) {
            lists.emplace_back(new bh::attribute_list);
            for (auto& kv : l.GetArray()) {
                bh::string_view k = keep(kv["k"]);
                const val_t& v = kv["v"];
                std::string t = str(v["t"]);
                bh::attribute_list& list = *lists.back();
                if (t == "n") list.emplace_back(k, bh::attribute::view_t(nullptr));
                else if (t == "b") list.emplace_back(k, bh::attribute::view_t(v["v"].GetBool()));
                else if (t == "i") list.emplace_back(k, bh::attribute::view_t(sint(v)));
                else if (t == "u") list.emplace_back(k, bh::attribute::view_t(static_cast<uint64_t>(strtoull(plain(v["d"]).c_str(), nullptr, 10))));
                else if (t == "d") list.emplace_back(k, bh::attribute::view_t(real(v)));
                else if (t == "s") list.emplace_back(k, bh::attribute::view_t(keep(v["v"])));
                else if (t == "f") {
                    bh::string_view s = keep(v["v"]);
                    fns.emplace_back(new disp_t{s.data(), s.size(), v.HasMember("thr")});
                    list.emplace_back(k, bh::attribute::view_t(*fns.back()));
                } else { fprintf(stderr, "bad value %s\n", t.c_str()); exit(3); }
            }
        }
        for (auto& l : lists) pack.push_back(*l);
    }
};

}  // namespace
}  // namespace h
