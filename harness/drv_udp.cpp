// Drives real UDP sinks under the controlled scheduler; datagrams are recorded where they leave and
// where they arrive (loopback).
// A program: {"cfg":{"hosts":[0|1..]}, "sinks":[{"host":h}..], "threads":[[["emit",k,msg]..]..], "faults":[errno..], "sim":0|1}
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/uio.h>

#include <map>
#include <set>
#include <thread>

#include <boost/system/system_error.hpp>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/socket/udp.hpp"

namespace bh = blackhole;
using namespace h;

namespace {

struct sk_t { std::string host; int port; int rx; bool heard; std::size_t due; std::vector<std::string> got; };

struct state_t {
    bool on = false, sim = false;
    int tid[64] = {0};
    int op_sink[64] = {0};
    std::vector<sk_t> sinks;
    std::vector<int> faults;
    std::size_t nfault = 0;
    std::set<int> ports;                // our sockets' own
    std::map<int, sockaddr_in6> peer;   // destinations of connected sockets
} G;

int me() { int s = sched::self(); return s >= 0 && s < 64 ? G.tid[s] : 0; }
int my_sink() { int s = sched::self(); return s >= 0 && s < 64 ? G.op_sink[s] : 0; }

std::vector<std::string> addresses(const std::string& host) {
    if (host == "none.test") return {};
    if (host == "one.test") return {"127.0.0.1"};
    if (host == "two.test") return {"127.0.0.3", "127.0.0.1"};
    if (host == "six.test") return {"::1"};
    in6_addr a;
    if (inet_pton(AF_INET, host.c_str(), &a) == 1 || inet_pton(AF_INET6, host.c_str(), &a) == 1) return {host};
    return {};
}

// The sink the address belongs to, 0: none.
int sink_of(const sockaddr* sa) {
    char b[64];
    int port;
    if (sa->sa_family == AF_INET) {
        auto a = reinterpret_cast<const sockaddr_in*>(sa);
        inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); port = ntohs(a->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        auto a = reinterpret_cast<const sockaddr_in6*>(sa);
        inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b); port = ntohs(a->sin6_port);
    } else return 0;
    for (std::size_t k = 0; k < G.sinks.size(); k++)
        if (G.sinks[k].port == port)
            for (auto& a : addresses(G.sinks[k].host)) if (a == b) return static_cast<int>(k + 1);
    return 0;
}

template<class F> F next(const char* sym) { race::quiet_t q; return reinterpret_cast<F>(dlsym(RTLD_NEXT, sym)); }
#define REAL(sym, type) static type real = next<type>(sym)

void point() { int e = errno; if (sched::active()) sched::yield_point(); errno = e; }
std::string head(const char* e) { return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(me()); }

void drain(int k) {
    auto& s = G.sinks[static_cast<std::size_t>(k - 1)];
    if (s.rx < 0) return;
    static char b[70000];
    ssize_t n;
    // What has been sent arrives, if not at once; what others send to the port (it may have been theirs) is no concern of ours.
    for (int i = 0; ; i++) {
        sockaddr_in from; socklen_t fl = sizeof from;
        while ((n = recvfrom(s.rx, b, sizeof b, MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&from), &fl)) >= 0) {
            if (G.ports.count(ntohs(from.sin_port))) s.got.emplace_back(b, static_cast<std::size_t>(n));
            fl = sizeof from;
        }
        if (s.got.size() >= s.due) break;
        if (i == 400) { s.due = s.got.size(); break; }
        usleep(5000);
    }
}

ssize_t sending(int fd, const sockaddr* sa, const iovec* v, std::size_t n, const std::function<ssize_t()>& real) {
    point();
    race::quiet_t q;
    std::string all;
    for (std::size_t i = 0; i < n; i++) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    int err = 0;
    if (G.nfault < G.faults.size()) err = G.faults[G.nfault++];
    bool given = err != 0;
    ssize_t r;
    if (err) r = -1;
    else if (G.sim) r = static_cast<ssize_t>(all.size());
    else { r = real(); err = errno; }
    int k = sink_of(sa);
    if (r < 0) {
        bool soft = err == EAGAIN || err == EWOULDBLOCK || err == EINTR;
        // What the system itself reports as refused connection happened to an earlier datagram.
        bool stale = !given && err == ECONNREFUSED;
        ev(head("refused") + ",\"soft\":" + (stale ? "2" : soft ? "1" : "0") + "}");
    } else {
        ev(head("dgram") + ",\"k\":" + std::to_string(k) + ",\"dest\":" + (k && k == my_sink() ? "1" : "0") + ",\"b\":" + bytes(all) + "}");
        if (!G.sim) {
            sockaddr_in own; socklen_t ol = sizeof own;
            if (getsockname(fd, reinterpret_cast<sockaddr*>(&own), &ol) == 0) G.ports.insert(ntohs(own.sin_port));
            if (k) { G.sinks[static_cast<std::size_t>(k - 1)].due++; drain(k); }
        }
    }
    point();
    errno = err;
    return r;
}
bool datagram(int fd) {
    int t = 0; socklen_t n = sizeof t;
    return G.on && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &n) == 0 && t == SOCK_DGRAM;
}

}  // namespace

extern "C" {
int connect(int fd, const sockaddr* sa, socklen_t n) {
    typedef int (*f_t)(int, const sockaddr*, socklen_t);
    REAL("connect", f_t);
    if (datagram(fd)) { race::quiet_t q; memcpy(&G.peer[fd], sa, std::min<std::size_t>(n, sizeof(sockaddr_in6))); if (G.sim) return 0; }
    return real(fd, sa, n);
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* sa, socklen_t sn) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int, const sockaddr*, socklen_t);
    REAL("sendto", f_t);
    if (!datagram(fd)) return real(fd, p, n, fl, sa, sn);
    iovec v = {const_cast<void*>(p), n};
    if (!sa) { sa = reinterpret_cast<sockaddr*>(&G.peer[fd]); return sending(fd, sa, &v, 1, [&] { return real(fd, p, n, fl, nullptr, 0); }); }
    return sending(fd, sa, &v, 1, [&] { return real(fd, p, n, fl, sa, sn); });
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int);
    REAL("send", f_t);
    if (!datagram(fd)) return real(fd, p, n, fl);
    iovec v = {const_cast<void*>(p), n};
    return sending(fd, reinterpret_cast<sockaddr*>(&G.peer[fd]), &v, 1, [&] { return real(fd, p, n, fl); });
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    typedef ssize_t (*f_t)(int, const msghdr*, int);
    REAL("sendmsg", f_t);
    if (!datagram(fd)) return real(fd, m, fl);
    auto sa = m->msg_name ? static_cast<const sockaddr*>(m->msg_name) : reinterpret_cast<sockaddr*>(&G.peer[fd]);
    return sending(fd, sa, m->msg_iov, m->msg_iovlen, [&] { return real(fd, m, fl); });
}
ssize_t write(int fd, const void* p, size_t n) {
    typedef ssize_t (*f_t)(int, const void*, size_t);
    REAL("write", f_t);
    if (!datagram(fd)) return real(fd, p, n);
    iovec v = {const_cast<void*>(p), n};
    return sending(fd, reinterpret_cast<sockaddr*>(&G.peer[fd]), &v, 1, [&] { return real(fd, p, n); });
}
int poll(pollfd* f, nfds_t n, int ms) {
    typedef int (*f_t)(pollfd*, nfds_t, int);
    REAL("poll", f_t);
    if (n == 1 && datagram(f->fd) && (f->events & POLLOUT)) { point(); f->revents = f->events; return 1; }
    return real(f, n, ms);
}
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** out) {
    race::quiet_t q;
    auto l = addresses(node ? node : "");
    if (l.empty()) return EAI_NONAME;
    int port = service ? atoi(service) : 0;
    addrinfo* first = nullptr;
    addrinfo** at = &first;
    for (auto& a : l) {
        auto* e = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6)));
        sockaddr* sa = reinterpret_cast<sockaddr*>(e + 1);
        if (a.find(':') == std::string::npos) {
            auto* s = reinterpret_cast<sockaddr_in*>(sa);
            s->sin_family = AF_INET; s->sin_port = htons(static_cast<uint16_t>(port)); inet_pton(AF_INET, a.c_str(), &s->sin_addr);
            e->ai_family = AF_INET; e->ai_addrlen = sizeof *s;
        } else {
            auto* s = reinterpret_cast<sockaddr_in6*>(sa);
            s->sin6_family = AF_INET6; s->sin6_port = htons(static_cast<uint16_t>(port)); inet_pton(AF_INET6, a.c_str(), &s->sin6_addr);
            e->ai_family = AF_INET6; e->ai_addrlen = sizeof *s;
        }
        e->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_DGRAM;
        e->ai_protocol = IPPROTO_UDP;
        e->ai_addr = sa;
        *at = e; at = &e->ai_next;
    }
    *out = first;
    return 0;
}
void freeaddrinfo(addrinfo* a) { race::quiet_t q; while (a) { auto* n = a->ai_next; free(a); a = n; } }
}

namespace {

void run_program(const val_t& p) {
    G.sim = p["sim"].GetInt() == 1;
    for (auto& e : p["faults"].GetArray()) G.faults.push_back(e.GetInt());
    for (auto& s : p["sinks"].GetArray()) {
        sk_t k{str(s["host"]), 0, -1, true, 0, {}};
        if (G.sim) k.port = 1000 + static_cast<int>(G.sinks.size());
        else {
            k.rx = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
            int sz = 1 << 20;
            setsockopt(k.rx, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
            sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY);
            if (bind(k.rx, reinterpret_cast<sockaddr*>(&a), sizeof a)) { perror("bind"); _exit(3); }
            socklen_t n = sizeof a;
            getsockname(k.rx, reinterpret_cast<sockaddr*>(&a), &n);
            k.port = ntohs(a.sin_port);
        }
        G.sinks.push_back(k);
    }
    G.on = true;
    auto reg = bh::registry::configured();
    std::vector<std::unique_ptr<bh::sink_t>> sinks(G.sinks.size());
    for (std::size_t i = 0; i < G.sinks.size(); i++) {
        std::stringstream js;
        js << "{\"type\":\"udp\",\"host\":\"" << G.sinks[i].host << "\",\"port\":" << G.sinks[i].port << "}";
        auto f = bh::config::factory_traits<bh::config::json_t>::construct(js);
        std::string k = std::to_string(i + 1);
        try {
            sinks[i] = reg->sink("udp")(f->config());
            ev("{\"e\":\"new\",\"k\":" + k + "}");
        }
        catch (const std::system_error&) { ev("{\"e\":\"nonew\",\"k\":" + k + ",\"what\":\"sys\"}"); }
        catch (const std::exception&) { ev("{\"e\":\"nonew\",\"k\":" + k + ",\"what\":\"std\"}"); }
        catch (...) { ev("{\"e\":\"nonew\",\"k\":" + k + ",\"what\":\"other\"}"); }
    }
    auto body = [&](int t, const val_t& ops) {
        int self = sched::self();
        { race::quiet_t q; G.tid[self] = t; }
        for (auto& op : ops.GetArray()) {
            std::string o = str(op[0]);
            int k = op[1].GetInt();
            auto& sink = sinks[static_cast<std::size_t>(k - 1)];
            if (!sink) continue;
            if (o == "deaf") {
                race::quiet_t q;
                auto& s = G.sinks[static_cast<std::size_t>(k - 1)];
                if (s.rx >= 0) { close(s.rx); s.rx = -1; s.heard = false; }
                continue;
            }
            std::string m = op[2].IsArray() ? unbytes(op[2]) : std::string(op[2].GetUint(), static_cast<char>(op[3].GetInt()));
            std::unique_ptr<buf_t> msg(new buf_t(m));
            bh::attribute_pack pack;
            const bh::string_view um("unformatted");
            std::unique_ptr<bh::record_t> rec(new bh::record_t(bh::severity_t(1), um, pack));
            rec->activate();
            { race::quiet_t q; G.op_sink[self] = k; }
            ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k) + ",\"msg\":" + bytes(m) + "}");
            const char* res = "ok";
            try { sink->emit(*rec, msg->view()); }
            catch (const std::system_error&) { res = "sys"; }
            catch (const boost::system::system_error&) { res = "sys"; }
            catch (...) { res = "exc"; }
            ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
            { race::quiet_t q; G.op_sink[self] = 0; }
            msg->poison();
        }
        { race::quiet_t q; G.tid[self] = 0; }
    };
    std::vector<std::thread> ths;
    int t = 0;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    for (std::size_t i = 0; i < sinks.size(); i++) if (sinks[i]) {
        ev("{\"e\":\"del\",\"k\":" + std::to_string(i + 1) + "}");
        sinks[i].reset();
        if (!G.sim && G.sinks[i].heard) {
            drain(static_cast<int>(i + 1));
            std::string all = "{\"e\":\"got\",\"k\":" + std::to_string(i + 1) + ",\"all\":[";
            for (std::size_t j = 0; j < G.sinks[i].got.size(); j++) all += (j ? "," : "") + bytes(G.sinks[i].got[j]);
            ev(all + "]}");
        }
    }
    G.on = false;
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
