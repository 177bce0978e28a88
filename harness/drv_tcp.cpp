// Drives real TCP sinks under the controlled scheduler. The system calls on their sockets are
// recorded; what they answer is decided by the program ("sim") or by real loopback peers.
// A program: {"cfg":{"addrs":[n..]}, "sinks":[{"host":h,"port":p,"by":"json"}..], "threads":[[["emit",k,msg]..]..],
//             "connects":[errno..], "sends":[[kind,n]..], "real":0|1}
#include "common.hpp"
#include "sched.hpp"
#include "explore.hpp"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>

#include <map>
#include <thread>

#include <boost/system/system_error.hpp>

#include "blackhole/config/json.hpp"
#include "blackhole/config/node.hpp"
#include "blackhole/factory.hpp"
#include "blackhole/registry.hpp"
#include "blackhole/sink.hpp"
#include "blackhole/sink/socket/tcp.hpp"

namespace bh = blackhole;
using namespace h;

namespace {

struct sk_t { std::string host; int port; };

struct state_t {
    bool on = false, sim = false;
    int tid[64] = {0};
    int op_sink[64] = {0};
    std::vector<sk_t> sinks;
    std::vector<int> connects;                  // results of connects in turn, 0: success
    std::vector<std::pair<int, int>> sends;     // results of sends in turn: {0,0} all, {1,n} n bytes, {2,errno}
    std::size_t nconn = 0, nsend = 0;
    std::map<int, int> conn;                    // descriptor -> connection
    std::map<int, std::size_t> out;             // connection -> bytes that left
    std::map<int, int> lport;                   // local port -> connection (real)
    int last = 0;
    std::map<int, int> soerr;
} G;

int me() { int s = sched::self(); return s >= 0 && s < 64 ? G.tid[s] : 0; }
int my_sink() { int s = sched::self(); return s >= 0 && s < 64 ? G.op_sink[s] : 0; }

// The addresses of the simulated names.
std::vector<std::string> addresses(const std::string& host) {
    if (host == "none.test") return {};
    if (host == "one.test") return {"127.0.0.1"};
    if (host == "two.test") return {"127.0.0.3", "127.0.0.1"};
    if (host == "three.test") return {"127.0.0.4", "::1", "127.0.0.1"};
    in6_addr a;
    if (inet_pton(AF_INET, host.c_str(), &a) == 1 || inet_pton(AF_INET6, host.c_str(), &a) == 1) return {host};
    return {};
}

int address_index(const sockaddr* sa) {
    int k = my_sink();
    if (k == 0) return 0;
    auto& s = G.sinks[static_cast<std::size_t>(k - 1)];
    char b[64];
    int port;
    if (sa->sa_family == AF_INET) {
        auto a = reinterpret_cast<const sockaddr_in*>(sa);
        inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); port = ntohs(a->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        auto a = reinterpret_cast<const sockaddr_in6*>(sa);
        inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b); port = ntohs(a->sin6_port);
    } else return 0;
    if (port != s.port) return 0;
    auto l = addresses(s.host);
    for (std::size_t i = 0; i < l.size(); i++) if (l[i] == b) return static_cast<int>(i + 1);
    return 0;
}

template<class F> F next(const char* sym) { race::quiet_t q; return reinterpret_cast<F>(dlsym(RTLD_NEXT, sym)); }
#define REAL(sym, type) static type real = next<type>(sym)

void point() { int e = errno; if (sched::active()) sched::yield_point(); errno = e; }
std::string head(const char* e) { return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(me()); }

int conn_of(int fd) {
    race::quiet_t q;
    auto it = G.conn.find(fd);
    return it == G.conn.end() ? 0 : it->second;
}

// A send of the given pieces on a connection; returns what the call returns.
ssize_t sending(int c, const iovec* v, int n, const std::function<ssize_t(const iovec*, int)>& real) {
    point();
    race::quiet_t q;
    std::string all;
    for (int i = 0; i < n; i++) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    ssize_t r;
    int err = 0;
    if (G.sim) {
        std::pair<int, int> plan(0, 0);
        if (!all.empty() && G.nsend < G.sends.size()) plan = G.sends[G.nsend++];
        r = static_cast<ssize_t>(all.size());
        if (plan.first == 1) r = std::min<ssize_t>(r, std::max(1, plan.second));
        if (plan.first == 2) { r = -1; err = plan.second; }
    } else {
        r = real(v, n);
        err = errno;
    }
    if (r < 0) {
        bool soft = err == EAGAIN || err == EWOULDBLOCK || err == EINTR;
        ev(head("senderr") + ",\"c\":" + std::to_string(c) + ",\"soft\":" + (soft ? "1" : "0") + "}");
    } else {
        G.out[c] += static_cast<std::size_t>(r);
        ev(head("send") + ",\"c\":" + std::to_string(c) + ",\"b\":" + bytes(all.data(), static_cast<std::size_t>(r)) + "}");
    }
    point();
    errno = err;
    return r;
}

}  // namespace

extern "C" {
int connect(int fd, const sockaddr* sa, socklen_t n) {
    typedef int (*f_t)(int, const sockaddr*, socklen_t);
    REAL("connect", f_t);
    if (!G.on || (sa->sa_family != AF_INET && sa->sa_family != AF_INET6)) return real(fd, sa, n);
    point();
    race::quiet_t q;
    int r = 0, err = 0;
    if (G.sim) {
        if (G.nconn < G.connects.size()) err = G.connects[G.nconn++];
        r = err ? -1 : 0;
    } else {
        r = real(fd, sa, n);
        err = errno;
    }
    int c = 0;
    if (r == 0) {
        c = ++G.last;
        G.conn[fd] = c;
        if (!G.sim) {
            sockaddr_in me_; socklen_t ml = sizeof me_;
            getsockname(fd, reinterpret_cast<sockaddr*>(&me_), &ml);
            G.lport[ntohs(me_.sin_port)] = c;
        }
    }
    ev(head("conn") + ",\"a\":" + std::to_string(address_index(sa)) + ",\"c\":" + std::to_string(c) + "}");
    point();
    errno = err;
    return r;
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int);
    REAL("send", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (!c) return real(fd, p, n, fl);
    iovec v = {const_cast<void*>(p), n};
    return sending(c, &v, 1, [&](const iovec*, int) { return real(fd, p, n, fl | MSG_NOSIGNAL); });
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* sa, socklen_t sn) {
    typedef ssize_t (*f_t)(int, const void*, size_t, int, const sockaddr*, socklen_t);
    REAL("sendto", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (!c) return real(fd, p, n, fl, sa, sn);
    iovec v = {const_cast<void*>(p), n};
    return sending(c, &v, 1, [&](const iovec*, int) { return real(fd, p, n, fl | MSG_NOSIGNAL, sa, sn); });
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    typedef ssize_t (*f_t)(int, const msghdr*, int);
    REAL("sendmsg", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (!c) return real(fd, m, fl);
    return sending(c, m->msg_iov, static_cast<int>(m->msg_iovlen), [&](const iovec*, int) { return real(fd, m, fl | MSG_NOSIGNAL); });
}
ssize_t write(int fd, const void* p, size_t n) {
    typedef ssize_t (*f_t)(int, const void*, size_t);
    REAL("write", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (!c) return real(fd, p, n);
    iovec v = {const_cast<void*>(p), n};
    return sending(c, &v, 1, [&](const iovec*, int) { return real(fd, p, n); });
}
ssize_t writev(int fd, const iovec* v, int k) {
    typedef ssize_t (*f_t)(int, const iovec*, int);
    REAL("writev", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (!c) return real(fd, v, k);
    return sending(c, v, k, [&](const iovec*, int) { return real(fd, v, k); });
}
int poll(pollfd* f, nfds_t n, int ms) {
    typedef int (*f_t)(pollfd*, nfds_t, int);
    REAL("poll", f_t);
    if (G.on && G.sim && n == 1 && conn_of(f->fd)) { point(); f->revents = f->events; return 1; }
    return real(f, n, ms);
}
int shutdown(int fd, int how) {
    typedef int (*f_t)(int, int);
    REAL("shutdown", f_t);
    if (G.on && G.sim && conn_of(fd)) return 0;
    return real(fd, how);
}
int close(int fd) {
    typedef int (*f_t)(int);
    REAL("close", f_t);
    int c = G.on ? conn_of(fd) : 0;
    if (c) {
        point();
        race::quiet_t q;
        ev(head("close") + ",\"c\":" + std::to_string(c) + "}");
        G.conn.erase(fd);
    }
    return real(fd);
}
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** out) {
    point();
    race::quiet_t q;
    auto l = addresses(node ? node : "");
    if (l.empty()) return EAI_NONAME;
    int port = service ? atoi(service) : 0;
    addrinfo* first = nullptr;
    addrinfo** at = &first;
    for (auto& a : l) {
        auto* e = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6)));
        sockaddr* sa = reinterpret_cast<sockaddr*>(e + 1);
        if (a.find(':') == std::string::npos) {
            auto* s = reinterpret_cast<sockaddr_in*>(sa);
            s->sin_family = AF_INET; s->sin_port = htons(static_cast<uint16_t>(port)); inet_pton(AF_INET, a.c_str(), &s->sin_addr);
            e->ai_family = AF_INET; e->ai_addrlen = sizeof *s;
        } else {
            auto* s = reinterpret_cast<sockaddr_in6*>(sa);
            s->sin6_family = AF_INET6; s->sin6_port = htons(static_cast<uint16_t>(port)); inet_pton(AF_INET6, a.c_str(), &s->sin6_addr);
            e->ai_family = AF_INET6; e->ai_addrlen = sizeof *s;
        }
        e->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        e->ai_protocol = IPPROTO_TCP;
        e->ai_addr = sa;
        *at = e; at = &e->ai_next;
    }
    *out = first;
    return 0;
}
void freeaddrinfo(addrinfo* a) { race::quiet_t q; while (a) { auto* n = a->ai_next; free(a); a = n; } }
}

namespace {

struct server_t {
    int ls = -1, port = 0;
    std::vector<int> fds;
    std::map<int, std::string> got;     // by descriptor
    std::map<int, int> id;
    bool on = false;
    void listen_(const char* addr) {
        on = true;
        if (ls >= 0) {      // bound already
            if (::listen(ls, 16)) { perror("listen"); _exit(3); }
            return;
        }
        ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; inet_pton(AF_INET, addr, &a.sin_addr); a.sin_port = htons(static_cast<uint16_t>(port));
        if (bind(ls, reinterpret_cast<sockaddr*>(&a), sizeof a) || ::listen(ls, 16)) { perror("listen"); _exit(3); }
        socklen_t n = sizeof a;
        getsockname(ls, reinterpret_cast<sockaddr*>(&a), &n);
        port = ntohs(a.sin_port);
    }
    void accept_() {
        if (!on) return;
        while (true) {
            pollfd p = {ls, POLLIN, 0};
            if (poll(&p, 1, 0) <= 0) break;
            sockaddr_in a; socklen_t n = sizeof a;
            int fd = accept4(ls, reinterpret_cast<sockaddr*>(&a), &n, SOCK_CLOEXEC | SOCK_NONBLOCK);
            if (fd < 0) break;
            auto it = G.lport.find(ntohs(a.sin_port));
            if (it == G.lport.end()) { close(fd); continue; }   // nobody of ours
            fds.push_back(fd);
            id[fd] = it->second;
            got[fd];
        }
    }
    void drain() {
        accept_();
        for (int fd : fds) {
            char b[4096];
            ssize_t n;
            auto pull = [&] { while ((n = read(fd, b, sizeof b)) > 0) got[fd].append(b, static_cast<std::size_t>(n)); };
            pull();
            // What has left arrives, if not at once.
            for (int i = 0; i < 400 && n < 0 && errno == EAGAIN && got[fd].size() < G.out[id[fd]]; i++) {
                pollfd p = {fd, POLLIN, 0};
                poll(&p, 1, 5);
                pull();
            }
        }
    }
    void report(int fd, int whole) { ev("{\"e\":\"peer\",\"c\":" + std::to_string(id[fd]) + ",\"b\":" + bytes(got[fd]) + ",\"whole\":" + std::to_string(whole) + "}"); }
    void drop(bool reset) {
        drain();
        for (int fd : fds) {
            report(fd, reset ? 0 : 1);
            if (reset) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            got.erase(fd);
            close(fd);
        }
        fds.clear();
    }
    // Connecting is refused from here on; the port stays ours, so that nobody else gets to listen on it.
    void unlisten() { if (on) { accept_(); ::shutdown(ls, SHUT_RDWR); on = false; } }
    void end() { unlisten(); if (ls >= 0) { close(ls); ls = -1; } }
};

void run_program(const val_t& p) {
    G.sim = p["real"].GetInt() == 0;
    server_t srv;
    if (!G.sim) srv.listen_("127.0.0.1");
    for (auto& e : p["connects"].GetArray()) G.connects.push_back(e.GetInt());
    for (auto& e : p["sends"].GetArray()) G.sends.emplace_back(e[0].GetInt(), e[1].GetInt());
    for (auto& s : p["sinks"].GetArray()) G.sinks.push_back({str(s["host"]), G.sim ? s["port"].GetInt() : srv.port});
    G.on = true;
    if (!G.sim && p["cold"].GetInt()) srv.unlisten();
    auto reg = bh::registry::configured();
    std::vector<std::unique_ptr<bh::sink_t>> sinks;
    for (auto& s : G.sinks) {
        std::stringstream js;
        js << "{\"type\":\"tcp\",\"host\":\"" << s.host << "\",\"port\":" << s.port << "}";
        auto f = bh::config::factory_traits<bh::config::json_t>::construct(js);
        sinks.push_back(reg->sink("tcp")(f->config()));
        ev("{\"e\":\"new\",\"k\":" + std::to_string(sinks.size()) + "}");
    }
    auto body = [&](int t, const val_t& ops) {
        int self = sched::self();
        { race::quiet_t q; G.tid[self] = t; }
        for (auto& op : ops.GetArray()) {
            std::string o = str(op[0]);
            if (o == "emit") {
                int k = op[1].GetInt();
                std::unique_ptr<buf_t> msg(new buf_t(unbytes(op[2])));
                bh::attribute_pack pack;
                const bh::string_view um("unformatted");
                std::unique_ptr<bh::record_t> rec(new bh::record_t(bh::severity_t(1), um, pack));
                rec->activate();
                { race::quiet_t q; G.op_sink[self] = k; }
                ev("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k) + ",\"msg\":" + bytes(unbytes(op[2])) + "}");
                const char* res = "ok";
                try { sinks[static_cast<std::size_t>(k - 1)]->emit(*rec, msg->view()); }
                catch (const std::system_error&) { res = "sys"; }
                catch (const boost::system::system_error&) { res = "sys"; }
                catch (...) { res = "exc"; }
                ev("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"res\":\"" + res + "\"}");
                { race::quiet_t q; G.op_sink[self] = 0; }
                msg->poison();
            }
            else if (o == "drain") srv.drain();
            else if (o == "close") srv.drop(false);
            else if (o == "reset") srv.drop(true);
            else if (o == "unlisten") srv.unlisten();
            else if (o == "listen") { if (!srv.on) srv.listen_("127.0.0.1"); }
        }
        { race::quiet_t q; G.tid[self] = 0; }
    };
    std::vector<std::thread> ths;
    int t = 0;
    for (auto& ops : p["threads"].GetArray()) { t++; ths.emplace_back([&, t] { body(t, ops); }); }
    for (auto& th : ths) th.join();
    for (std::size_t i = 0; i < sinks.size(); i++) {
        // Destroying takes effect somewhere within.
        ev("{\"e\":\"del\",\"k\":" + std::to_string(i + 1) + "}");
        sinks[i].reset();
    }
    if (!G.sim) { srv.drop(false); srv.end(); }
    G.on = false;
}

}  // namespace

int main(int argc, char** argv) { return explore::main(argc, argv, run_program); }
