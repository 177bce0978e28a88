// Drives real file sinks on real files under the controlled scheduler.
// Program: {"id","cfg":{"spill":n},"steps":[step..]}; steps (run by thread 0 unless "par"):
//   ["new",s,{path,pol,n,rot,via,spell}] ["del",s] ["look"]
//   ["fs",op,args..]  ops: rename unlink fresh hard sym mkdir bad ext trunc away back
//   ["nofile",0|1] ["par",[[["emit",s,hex]..]..]]
// A second mode checks thresholds and their spellings: see bulk().
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"
#include "iohooks.hpp"

#include <dirent.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#include <algorithm>
#include <map>
#include <set>
#include <thread>

#include "blackhole/builder.hpp"
#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/file.hpp"

namespace bh = blackhole;
using namespace h;

namespace {

const char* const NAMES[] = {"a", "b", "c", "s/a", "s/b"};

struct world_t {
    std::string dir;
    bool away = false, nofile = false;
    std::unique_ptr<bh::sink_t> sinks[8];
    struct pin_t { int fd; };
    std::map<std::pair<dev_t, ino_t>, int> pins;
} W;

std::string path(const std::string& n) {
    if (W.away && n.compare(0, 2, "s/") == 0) return W.dir + "/s.away/" + n.substr(2);
    return W.dir + "/" + n;
}
std::string real_path(const std::string& n) { return W.dir + "/" + n; }

int real_lstat(const std::string& p, struct stat* b) { return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), b, AT_SYMLINK_NOFOLLOW)); }

std::string slurp(int fd) {
    std::string r;
    char b[65536];
    off_t o = 0;
    ssize_t n;
    while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, static_cast<size_t>(n)); o += n; }
    return r;
}
void die(const std::string& what) { fprintf(stderr, "drv_file: %s: %s\n", what.c_str(), strerror(errno)); set_status(("crash:harness " + what).substr(0, 60).c_str()); _exit(3); }

// Keeps every file that has a name alive, so that its content can be seen later.
void scan() {
    for (auto n : NAMES) {
        struct stat b;
        std::string p = path(n);
        if (real_lstat(p, &b) != 0 || !S_ISREG(b.st_mode)) continue;
        auto key = std::make_pair(b.st_dev, b.st_ino);
        if (W.pins.count(key)) continue;
        int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
        if (fd < 0) die("pin");
        W.pins[key] = fd;
    }
}

void look() {
    scan();
    std::string r = "{\"e\":\"look\",\"names\":[";
    std::set<std::pair<dev_t, ino_t>> named;
    bool first = true;
    for (auto n : NAMES) {
        struct stat b;
        std::string p = path(n), k = "no", c;
        if (real_lstat(p, &b) == 0) {
            if (S_ISREG(b.st_mode)) {
                k = "file";
                auto key = std::make_pair(b.st_dev, b.st_ino);
                named.insert(key);
                c = hex(slurp(W.pins[key]));
            } else if (S_ISDIR(b.st_mode)) k = "dir";
            else k = "other";
        }
        if (!first) r += ',';
        first = false;
        r += std::string("[\"") + n + "\",\"" + k + "\",\"" + c + "\"]";
    }
    std::vector<std::string> orphans;
    for (auto& p : W.pins) if (!named.count(p.first)) orphans.push_back(hex(slurp(p.second)));
    std::sort(orphans.begin(), orphans.end());
    r += "],\"orphans\":[";
    for (size_t i = 0; i < orphans.size(); i++) r += (i ? ",\"" : "\"") + orphans[i] + "\"";
    r += "],\"extra\":";
    // Anything that is not supposed to be there.
    int extra = 0;
    for (std::string d : {W.dir, W.dir + (W.away ? "/s.away" : "/s")}) {
        DIR* h = opendir(d.c_str());
        if (!h) die("opendir");
        while (auto e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            if (d == W.dir && (n == "s" || n == "s.away" || n == "s.loop")) continue;
            if (n.size() != 1 || n[0] < 'a' || n[0] > 'c') extra++;
        }
        closedir(h);
    }
    ev(r + std::to_string(extra) + "}");
}

std::unique_ptr<bh::sink_t> make(const std::string& p, const val_t& d) {
    std::string pol = str(d["pol"]), via = str(d["via"]);
    uint64_t n = d["n"].GetUint64();
    bool rot = d["rot"].GetInt();
    if (via == "json") {
        std::string js = "{\"type\":\"file\",\"path\":" + q(p);
        if (pol == "count") js += ",\"flush\":" + std::to_string(n);
        if (pol == "bytes") js += ",\"flush\":\"" + std::to_string(n) + "B\"";
        if (rot) js += ",\"rotate\":{\"type\":\"stat\"}";
        js += "}";
        std::stringstream ss(js);
        auto cf = bh::config::factory_traits<bh::config::json_t>::construct(ss);
        auto reg = bh::registry::empty();
        bh::factory<bh::sink::file_t> f(*reg);
        return f.from(cf->config());
    }
    bh::builder<bh::sink::file_t> b(p);
    if (via == "lv") {
        if (pol == "count") b.flush_every(static_cast<std::size_t>(n));
        if (pol == "bytes") b.flush_every(bh::bytes_t(n));
        if (rot) b.rotate_checking_stat();
        return std::move(b).build();
    }
    // Last setting wins.
    if (pol == "count") { auto&& c = std::move(b).flush_every(bh::bytes_t(1)).flush_every(static_cast<std::size_t>(n)); return rot ? std::move(c).rotate_checking_stat().build() : std::move(c).build(); }
    if (pol == "bytes") { auto&& c = std::move(b).flush_every(static_cast<std::size_t>(1)).flush_every(bh::bytes_t(n)); return rot ? std::move(c).rotate_checking_stat().build() : std::move(c).build(); }
    return rot ? std::move(b).rotate_checking_stat().build() : std::move(b).build();
}

std::string errname(const std::system_error& e) {
    if (e.code().category() != std::system_category() && e.code().category() != std::generic_category())
        return std::string("category ") + e.code().category().name();
    switch (e.code().value()) {
    case ENOENT: return "ENOENT"; case EISDIR: return "EISDIR"; case ENOTDIR: return "ENOTDIR"; case ELOOP: return "ELOOP";
    case EMFILE: return "EMFILE"; case ENXIO: return "ENXIO"; case EACCES: return "EACCES"; case EPERM: return "EPERM";
    }
    return "E" + std::to_string(e.code().value());
}

void emit(int t, int s, const std::string& m) {
    std::string T = ",\"t\":" + std::to_string(t);
    ev("{\"e\":\"call\"" + T + ",\"s\":" + std::to_string(s) + ",\"m\":\"" + hex(m) + "\"}");
    bh::string_view msg("m", 1);
    bh::attribute_pack pack;
    bh::record_t rec(0, msg, pack);
    buf_t b(m);
    std::string res = "ok";
    try { W.sinks[s]->emit(rec, b.view()); }
    catch (const std::system_error& e) { res = errname(e); }
    catch (const std::exception& e) { res = std::string("exception ") + e.what(); }
    catch (...) { res = "unknown exception"; }
    b.poison();
    ev("{\"e\":\"ret\"" + T + ",\"res\":" + q(res) + "}");
}

// False if it was not possible.
bool fsop(const val_t& st) {
    std::string op = str(st[1]);
    auto A = [&](rapidjson::SizeType i) { return str(st[i]); };
    int rc = 0;
    if (op == "rename") rc = rename(path(A(2)).c_str(), path(A(3)).c_str());
    else if (op == "unlink") rc = remove(path(A(2)).c_str());
    else if (op == "fresh") {
        // Created elsewhere and moved in, as a rotation tool does; may pretend to live on another device.
        std::string tmp = W.dir + "/s.tmp";
        int fd = open(tmp.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
        if (fd < 0) die("fresh");
        std::string c = unhex(A(3));
        if (pwrite(fd, c.data(), c.size(), 0) != static_cast<ssize_t>(c.size())) die("fresh write");
        close(fd);
        struct stat nb, ob;
        if (real_lstat(tmp, &nb) != 0) die("fresh stat");
        struct stat pb;
        std::string into = path(A(2));
        if (into.find('/', W.dir.size() + 1) != std::string::npos && real_lstat(into.substr(0, into.rfind('/')), &pb) != 0) { unlink(tmp.c_str()); return false; }
        if (real_lstat(into, &pb) == 0 && S_ISDIR(pb.st_mode)) { unlink(tmp.c_str()); return false; }
        if (st[4].GetInt() && real_lstat(path(A(2)), &ob) == 0 && S_ISREG(ob.st_mode))
            iohooks::aliases().push_back({nb.st_dev, nb.st_ino, ob.st_dev + 1, ob.st_ino});
        // Keep whatever is replaced.
        scan();
        rc = rename(tmp.c_str(), path(A(2)).c_str());
    }
    else if (op == "hard") rc = link(path(A(2)).c_str(), path(A(3)).c_str());
    else if (op == "sym") rc = symlink(real_path(A(2)).c_str(), path(A(3)).c_str());
    else if (op == "mkdir") rc = mkdir(path(A(2)).c_str(), 0755);
    else if (op == "bad") {
        std::string e = A(3), p = path(A(2));
        if (e == "ENOENT") rc = symlink((W.dir + "/missing/x").c_str(), p.c_str());
        else if (e == "ENOTDIR") rc = symlink("/dev/null/x", p.c_str());
        else if (e == "ELOOP") rc = symlink((W.dir + "/s.loop").c_str(), p.c_str());
        else if (e == "ENXIO") {
            int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            struct sockaddr_un a = {};
            a.sun_family = AF_UNIX;
            strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1);
            rc = bind(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof a);
            close(fd);
        }
    }
    else if (op == "ext") {
        int fd = open(real_path(A(2)).c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
        if (fd < 0) return false;
        std::string c = unhex(A(3));
        rc = ::write(fd, c.data(), c.size()) == static_cast<ssize_t>(c.size()) ? 0 : -1;
        close(fd);
    }
    else if (op == "trunc") rc = truncate(real_path(A(2)).c_str(), 0);
    else if (op == "away") { rc = rename((W.dir + "/s").c_str(), (W.dir + "/s.away").c_str()); W.away = true; }
    else if (op == "back") { rc = rename((W.dir + "/s.away").c_str(), (W.dir + "/s").c_str()); W.away = false; }
    else { errno = 0; die("op " + op); }
    return rc == 0;
}

void limit(bool on) {
    static struct rlimit old;
    if (on) { getrlimit(RLIMIT_NOFILE, &old); struct rlimit n = {0, old.rlim_max}; setrlimit(RLIMIT_NOFILE, &n); }
    else setrlimit(RLIMIT_NOFILE, &old);
}

void wipe() {
    for (std::string d : {"/s", "/s.away", ""}) {
        DIR* h = opendir((W.dir + d).c_str());
        if (!h) continue;
        std::vector<std::string> v;
        while (auto e = readdir(h)) v.push_back(e->d_name);
        closedir(h);
        for (auto& n : v) if (n != "." && n != "..") remove((W.dir + d + "/" + n).c_str());
        remove((W.dir + d).c_str());
    }
}

void run_program(const val_t& p) {
    {
        race::quiet_t quiet;
        iohooks::shared_streams[0] = &std::cout;
        iohooks::shared_streams[1] = &std::cerr;
        const char* t = getenv("DRV_SCRATCH");
        std::string tmpl = std::string(t ? t : "/tmp") + "/bhf-XXXXXX";
        std::vector<char> b(tmpl.begin(), tmpl.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) die("mkdtemp");
        W.dir = b.data();
        if (mkdir((W.dir + "/s").c_str(), 0755)) die("mkdir");
        if (symlink((W.dir + "/s.loop").c_str(), (W.dir + "/s.loop").c_str())) die("symlink");
    }
    for (auto& st : p["steps"].GetArray()) {
        std::string k = str(st[0]);
        if (k == "new") {
            int s = st[1].GetInt();
            auto& d = st[2];
            W.sinks[s] = make(real_path(str(d["path"])), d);
            ev("{\"e\":\"new\",\"s\":" + std::to_string(s) + ",\"path\":" + q(str(d["path"])) + ",\"pol\":" + q(str(d["pol"])) +
               ",\"n\":" + std::to_string(d["n"].GetUint64()) + ",\"rot\":" + std::to_string(d["rot"].GetInt()) + "}");
        } else if (k == "del") {
            int s = st[1].GetInt();
            W.sinks[s].reset();
            ev("{\"e\":\"del\",\"s\":" + std::to_string(s) + "}");
        } else if (k == "look") {
            race::quiet_t quiet;
            look();
        } else if (k == "fs") {
            race::quiet_t quiet;
            scan();
            bool done = fsop(st);
            scan();
            if (!done) continue;
            std::string a;
            for (rapidjson::SizeType i = 1; i < st.Size(); i++) a += (a.empty() ? "" : ",") + explore::compact(st[i]);
            ev("{\"e\":\"fs\",\"op\":[" + a + "]}");
        } else if (k == "nofile") {
            W.nofile = st[1].GetInt();
            ev("{\"e\":\"nofile\",\"on\":" + std::to_string(st[1].GetInt()) + "}");
        } else if (k == "par") {
            if (W.nofile) limit(true);
            std::vector<std::thread> ts;
            int t = 0;
            for (auto& ops : st[1].GetArray()) {
                t++;
                if (st[1].Size() == 1) { for (auto& o : ops.GetArray()) emit(t, o[1].GetInt(), unhex(str(o[2]))); continue; }
                ts.emplace_back([t, &ops] { for (auto& o : ops.GetArray()) emit(t, o[1].GetInt(), unhex(str(o[2]))); });
            }
            for (auto& x : ts) x.join();
            if (W.nofile) limit(false);
        }
    }
    race::quiet_t quiet;
    for (auto& s : W.sinks) s.reset();
    wipe();
}

// ---- thresholds and their spellings ------------------------------------------------------------
// stdin-like file of lines {"id","kind":"flush"|"typed","json":<text>|...,"sizes":[n..]}: builds the sink, emits
// messages of the given sizes and reports after each how many bytes have been handed to the system.
int bulk(const char* in_, const char* out_) {
    std::ifstream in(in_);
    std::ofstream out(out_);
    std::string line;
    const size_t MAX = size_t(1) << 30;
    char* mem = static_cast<char*>(mmap(nullptr, MAX + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (mem == MAP_FAILED) { perror("mmap"); return 3; }
    shm_init();
    while (std::getline(in, line)) {
        doc_t p; p.Parse(line.c_str());
        if (p.HasParseError()) return 3;
        std::string st = forked([&] {
            std::unique_ptr<bh::sink_t> s;
            std::string res = "ok";
            try {
                if (p.HasMember("js")) {
                    std::stringstream ss("{\"path\":\"/dev/null\"," + str(p["js"]) + "}");
                    auto cf = bh::config::factory_traits<bh::config::json_t>::construct(ss);
                    auto reg = bh::registry::empty();
                    bh::factory<bh::sink::file_t> f(*reg);
                    s = f.from(cf->config());
                } else {
                    bh::builder<bh::sink::file_t> b("/dev/null");
                    std::string u = str(p["typed"]);
                    uint64_t n = p["num"].GetUint64();
                    if (u == "B") b.flush_every(bh::bytes_t(n));
                    else if (u == "kB") b.flush_every(bh::kilobytes_t(n));
                    else if (u == "MB") b.flush_every(bh::megabytes_t(n));
                    else if (u == "GB") b.flush_every(bh::gigabytes_t(n));
                    else if (u == "KiB") b.flush_every(bh::kibibytes_t(n));
                    else if (u == "MiB") b.flush_every(bh::mibibytes_t(n));
                    else if (u == "GiB") b.flush_every(bh::gibibytes_t(n));
                    else b.flush_every(static_cast<std::size_t>(n));
                    s = std::move(b).build();
                }
            } catch (...) { res = exc_name(std::current_exception()); }
            ev("{\"e\":\"made\",\"res\":" + q(res) + "}");
            if (s) {
                iohooks::bulk = true;
                for (auto& x : p["sizes"].GetArray()) {
                    size_t n = x.GetUint64();
                    bh::string_view msg("m", 1);
                    bh::attribute_pack pack;
                    bh::record_t rec(0, msg, pack);
                    unsigned long long before = iohooks::bulk_bytes;
                    s->emit(rec, bh::string_view(mem, n));
                    ev("{\"e\":\"wrote\",\"n\":" + std::to_string(n) + ",\"out\":" + std::to_string(iohooks::bulk_bytes - before) + "}");
                }
                unsigned long long before = iohooks::bulk_bytes;
                s.reset();
                ev("{\"e\":\"closed\",\"out\":" + std::to_string(iohooks::bulk_bytes - before) + "}");
                iohooks::bulk = false;
            }
        }, 60000);
        std::string evs(shm()->buf, shm()->len);
        if (!evs.empty()) evs += ',';
        out << "{\"id\":" << p["id"].GetInt() << ",\"cfg\":" << explore::compact(p["cfg"]) << ",\"how\":\"bulk\",\"ev\":[" << evs << "{\"e\":\"end\",\"st\":" << q(st) << "}]}\n";
    }
    return 0;
}

}  // namespace

int main(int argc, char** argv) {
    if (argc == 4 && std::string(argv[1]) == "--bulk") return bulk(argv[2], argv[3]);
    return explore::main(argc, argv, run_program);
}
