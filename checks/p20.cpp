// P20: the tcp library. All histories of connect / accept / send / receive / peek / close within bounds, over the loopback device,
// through scripts, against a model of byte streams; addresses, ports and unusable arguments. Every socket lives in this process.
#include "wr.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <dirent.h>
#include <poll.h>
#include <fcntl.h>
#include <netdb.h>
using namespace mc;
typedef std::string S;
static int g_port;      // port of the listener of this worker
static int g_listen = -1;
struct W { WRState* w; WRContext* x; wr::Bytes b; W(const S& src, long hint = -1) { w = wr_newState(64); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); if (hint >= 0) wr_setAllocatedMemoryGCHint(w, hint); if (wr::compile(src.c_str(), b)) { fprintf(stderr, "P20: %d\n%s\n", b.err, src.c_str()); abort(); } x = wr_run(w, b.p, b.n); } ~W() { wr_destroyState(w); }
	S call(const char* f, const std::vector<WRValue>& a) { WRValue v[4]; for (size_t i = 0; i < a.size(); ++i) v[i] = a[i]; WRValue* r = wr_callFunction(x, f, v, (int)a.size()); int e = wr_getLastError(w); if (e) return sf("!E%d", e); return r ? wr::render(*r) : S("null"); }
	S call(const char* f) { return call(f, std::vector<WRValue>()); } S call(const char* f, int a) { WRValue v; v.init(a); return call(f, std::vector<WRValue>(1, v)); } S call(const char* f, int a, int b) { std::vector<WRValue> v(2); v[0].init(a); v[1].init(b); return call(f, v); } };
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) ++n; if (d) closedir(d); return n; }
// a port nobody uses, outside the ephemeral range, from a range that differs from worker to worker
static int freePort() { static int at; for (int i = 0; i < 400; ++i) { int p = 10000 + ((int)getpid() % 100) * 220 + (at++ * 7) % 220; int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0; close(s); if (ok) return p; } return 0; }
static void nodelay(int fd) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
static void drop(int fd) { linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); }
static int avail(int fd) { int n = 0; return ioctl(fd, FIONREAD, &n) ? -1 : n; }
static void settle(int fd, int n) { for (int i = 0; i < 4000 && avail(fd) != n; ++i) usleep(i < 50 ? 20 : 500); }
static bool readable(int fd) { pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0; return poll(&p, 1, 0) > 0; }
static bool waitReadable(int fd) { pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0; return poll(&p, 1, 2000) > 0; }
static void drain() { while (readable(g_listen)) { int s = accept(g_listen, 0, 0); if (s < 0) break; drop(s); } }
// the listener of this worker, made by a script
static S ensureListener() { if (g_listen >= 0) return ""; W w("function b(p) { return tcp::bind(p); }"); S r; for (int i = 0; i < 40; ++i) { g_port = freePort(); r = w.call("b", g_port); int s = atoi(r.c_str()); if (r[0] != '-' && s > 2) { g_listen = s; return ""; } } return r; }
static const char* SRC = "var data[] = { \"a\", \"hello\", \"x\\0000\\0255y\", \"\", \"abcdefgh\" };\nfunction con(p) { return tcp::connect(\"127.0.0.1\", p); }\nfunction acc(l) { return tcp::accept(l); }\nfunction snd(s, k) { return tcp::send(s, data[k]); }\nfunction rcv(s) { var d = tcp::receive(s); return d; }\nfunction rcn(s, n) { return tcp::receive(s, n); }\nfunction pk(s) { return tcp::peek(s); }\nfunction cls(s) { tcp::close(s); return 7; }\n";
static const S DATA[] = { "a", "hello", S("x\0\xffy", 4), "", "abcdefgh" };
struct End { int fd = -1; S in; bool open = false; };
struct Conn { End e[2]; bool accepted = false, undefined = false; };
static S quoted(const S& d) { return wr::quote(d.data(), d.size()); }
static void streams(Ctx& c) {
	S lerr = ensureListener(); if (!lerr.empty()) { c.split(); c.id("listen"); c.fail("listen", "tcp::bind of a free port gave " + lerr, ""); return; }
	int start = c.choose(3), hint = c.choose(2), depth = c.thorough() ? 5 : 4; std::vector<Conn> cs; S path = sf("%d", start); bool opened = false; static long live; static int fd0; W* w = 0; S bad; drain();
	struct Guard { W*& w; std::vector<Conn>& cs; ~Guard() { for (auto& k : cs) for (auto& e : k.e) if (e.open && e.fd > 2) drop(e.fd); drain(); delete w; } };
	{ Guard g{ w, cs };
	auto fail = [&](const S& m) { if (bad.empty()) bad = m; };
	auto connect = [&]() { S r = w->call("con", g_port); Conn k; k.e[0].fd = atoi(r.c_str()); k.e[0].open = k.e[0].fd > 2; if (!k.e[0].open) { fail("tcp::connect gave " + r); return; } nodelay(k.e[0].fd); cs.push_back(k); if (!waitReadable(g_listen)) fail("no connection arrived"); };
	auto accept = [&]() { for (auto& k : cs) if (!k.accepted) { S r = w->call("acc", g_listen); k.e[1].fd = atoi(r.c_str()); k.e[1].open = k.e[1].fd > 2; if (!k.e[1].open) { fail("tcp::accept gave " + r); return; } k.accepted = true; nodelay(k.e[1].fd); return; } };
	auto begin = [&]() { if (opened) return; opened = true; live = wr::g_live; fd0 = fds(); w = new W(SRC, hint ? 0 : -1); if (start > 0) connect(); if (start > 1 && bad.empty()) accept(); };
	struct Op { int k, conn, end, a; };
	// the moves of the model are known without touching a socket: the shape of the history is chosen first, then carried out
	struct M { bool acc, undef; bool open[2]; int in[2]; }; std::vector<M> ms; auto mconn = [&]() { M m = { false, false, { true, true }, { 0, 0 } }; ms.push_back(m); }; if (start > 0) mconn(); if (start > 1) ms[0].acc = true; std::vector<Op> hist;
	for (int d = 0; d < depth; ++d) {
		std::vector<Op> ops; if (ms.size() < 2) ops.push_back({ 0, 0, 0, 0 }); bool pend = false; for (auto& m : ms) pend |= !m.acc; if (pend) ops.push_back({ 1, 0, 0, 0 }); ops.push_back({ 2, 0, 0, 0 });
		for (size_t i = 0; i < ms.size(); ++i) for (int e = 0; e < 2; ++e) { M& m = ms[i]; if (!m.open[e] || (e && !m.acc)) continue; int big = i ? 1 : d == 0 ? 5 : d < 4 ? 3 : 1; for (int k = 0; k < big; ++k) ops.push_back({ 3, (int)i, e, k }); if (m.undef) { ops.push_back({ 7, (int)i, e, 0 }); continue; }
			if (m.in[e] > 0 || !m.open[1 - e]) ops.push_back({ 4, (int)i, e, 0 }); if (m.in[e] > 0) { ops.push_back({ 5, (int)i, e, 3 });  } ops.push_back({ 6, (int)i, e, 0 }); ops.push_back({ 7, (int)i, e, 0 }); }
		Op o = ops[c.choose((int)ops.size())]; if (d == 1) c.split(); hist.push_back(o); path += sf(" %d.%d.%d.%d", o.k, o.conn, o.end, o.a);
		switch (o.k) { case 0: mconn(); break; case 1: for (auto& m : ms) if (!m.acc) { m.acc = true; break; } break; case 3: { M& m = ms[o.conn]; if (!m.open[1 - o.end]) { if (DATA[o.a].size()) m.undef = true; } else m.in[1 - o.end] += DATA[o.a].size(); break; } case 4: ms[o.conn].in[o.end] = 0; break; case 5: ms[o.conn].in[o.end] = std::max(0, ms[o.conn].in[o.end] - o.a); break; case 7: { M& m = ms[o.conn]; m.open[o.end] = false; if (m.in[o.end]) m.undef = true; break; } }
	}
	c.id("tcp:" + path); c.note(path); begin(); S trail;
	for (auto& o : hist) { if (!bad.empty()) break; c.transition(); S r, want; Conn* k = o.k > 2 ? &cs[o.conn] : 0;
		switch (o.k) {
		case 0: connect(); continue;
		case 1: accept(); continue;
		case 2: { bool p = false; for (auto& q : cs) p |= !q.accepted; r = w->call("pk", g_listen); if ((r != "0") != p) fail(S("tcp::peek of the listener gave ") + r + (p ? " with" : " without") + " a connection waiting"); continue; }
		case 3: { End& to = k->e[1 - o.end]; bool there = to.open || (o.end == 0 && !k->accepted); r = w->call("snd", k->e[o.end].fd, o.a); if (!there || k->undefined) { if (DATA[o.a].size()) k->undefined = true; if (r != "-1" && r != sf("%d", (int)DATA[o.a].size())) fail("tcp::send to a closed peer gave " + r); } else { to.in += DATA[o.a]; if (r != sf("%d", (int)DATA[o.a].size())) fail(sf("tcp::send of %d bytes gave ", (int)DATA[o.a].size()) + r); } continue; }
		case 4: case 5: { End& e = k->e[o.end]; settle(e.fd, (int)e.in.size()); if (e.in.empty()) waitReadable(e.fd); int n = o.k == 4 ? 8192 : o.a; if (!readable(e.fd)) { fail("what was sent did not arrive"); continue; } want = e.in.empty() ? S("0") : quoted(e.in.substr(0, n)); r = o.k == 4 ? w->call("rcv", e.fd) : w->call("rcn", e.fd, n); e.in.erase(0, n); if (r != want) fail("tcp::receive gave " + r + " instead of " + want); continue; }
		case 6: { End& e = k->e[o.end]; settle(e.fd, (int)e.in.size()); r = w->call("pk", e.fd); if (r != sf("%d", (int)e.in.size())) fail("tcp::peek gave " + r + sf(" instead of %d", (int)e.in.size())); continue; }
		case 7: { End& e = k->e[o.end]; w->call("cls", e.fd); e.open = false; if (e.in.size()) k->undefined = true; if (fcntl(e.fd, F_GETFD) != -1) { fail("tcp::close left the socket open"); close(e.fd); } continue; }
		} }
	if (bad.empty()) for (auto& k : cs) for (int e = 0; e < 2; ++e) { if (!k.e[e].open || k.undefined) continue; settle(k.e[e].fd, (int)k.e[e].in.size()); if (avail(k.e[e].fd) != (int)k.e[e].in.size()) fail(sf("%d bytes wait at an end instead of %d", avail(k.e[e].fd), (int)k.e[e].in.size())); }
	for (auto& k : cs) trail += k.e[0].in + "/" + k.e[1].in + ";"; c.state(hashs(trail + path.substr(0, 1))); c.outcome(trail); }
	if (bad.empty() && wr::g_live != live) bad = sf("leaks %ld blocks", wr::g_live - live); if (bad.empty() && fds() != fd0) bad = sf("%d descriptors more than before", fds() - fd0);
	c.trace(); if (!bad.empty()) c.fail("tcp:" + path, bad, path); }
// every dotted address reaches exactly the address it names; names are looked up; a port nobody listens on is refused
static void addresses(Ctx& c) {
	static const int oct[] = { 1, 9, 10, 99, 100, 199, 200, 249, 254, 0 }; S lerr = ensureListener(); int a = c.choose(10), b = c.choose(10), d = c.choose(10), z = c.choose(2); c.split(); if (!lerr.empty()) { c.id("listen"); c.fail("listen", "tcp::bind gave " + lerr, ""); return; }
	if (oct[d] == 0) throw Skip(); drain(); S addr = sf(z ? "127.%03d.%03d.%03d" : "127.%d.%d.%d", oct[a], oct[b], oct[d]), num = sf("127.%d.%d.%d", oct[a], oct[b], oct[d]); c.id("addr:" + addr); c.note(addr); long live = wr::g_live; int fd0 = fds();
	{ sockaddr_in t; memset(&t, 0, sizeof t); t.sin_family = AF_INET; t.sin_port = htons(g_port); inet_pton(AF_INET, num.c_str(), &t.sin_addr); int s = socket(AF_INET, SOCK_STREAM, 0); bool ok = connect(s, (sockaddr*)&t, sizeof t) == 0; drop(s); if (!ok) throw Skip(); drain(); } // not reachable here at all
	{ W w("function con(p) { return tcp::connect(\"" + addr + "\", p); }"); S r = w.call("con", g_port); int s = atoi(r.c_str()); c.transition(); if (s < 3) c.fail("addr:" + addr, "tcp::connect gave " + r, addr); else { sockaddr_in p; socklen_t l = sizeof p; char t[40] = ""; getpeername(s, (sockaddr*)&p, &l); inet_ntop(AF_INET, &p.sin_addr, t, 40); if (num != t || ntohs(p.sin_port) != g_port) c.fail("addr:" + addr, S("connected to ") + t, addr); drop(s); } }
	drain(); if (wr::g_live != live || fds() != fd0) c.fail("addr:leak", sf("%ld blocks, %d descriptors", wr::g_live - live, fds() - fd0), addr); c.trace(); c.outcome(num); }
static void ports(Ctx& c) { static const char* names[] = { "127.0.0.257", "127.0.257.1", "127.257.0.1", "127.0.0.1000", "999.1.1.1", "127.0.0.1.", "127..0.1", "127.0.0.1x", "a name with blanks", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggg" }; int k = c.choose(7), nm = k == 6 ? c.choose(10) : 0; c.split(); c.id(sf("port:%d:%d", k, nm)); long live = wr::g_live; int fd0 = fds(); S bad;
	{ W w("function b(p) { return tcp::bind(p); } function con(p) { return tcp::connect(\"127.0.0.1\", p); } function cl(s) { tcp::close(s); } function nm(p) { return tcp::connect(\"localhost\", p); } function un(p) { return tcp::connect(\"" + S(names[nm]) + "\", p); }"); S r; int s = -1, p = 0; for (int i = 0; i < 40 && s < 3; ++i) { p = freePort(); r = w.call("b", p); s = atoi(r.c_str()); } c.transition();
	if (s < 3) bad = "tcp::bind of a free port gave " + r; else { sockaddr_in a; socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); if (ntohs(a.sin_port) != p) bad = sf("bound to port %d instead of %d", ntohs(a.sin_port), p); int n = fds();
		if (k == 1) { r = w.call("b", p); if (r != "-1") bad = "a second tcp::bind of the port gave " + r; if (fds() != n) bad = "a refused tcp::bind leaves a descriptor"; }
		if (k == 2) { w.call("cl", s); r = w.call("con", p); if (r != "-1") { bad = "tcp::connect to a closed port gave " + r; } if (fds() != n - 1) bad = "a refused tcp::connect leaves a descriptor"; s = -1; }
		if (k == 3) { w.call("cl", s); r = w.call("b", p); s = atoi(r.c_str()); if (s < 3) bad = "tcp::bind after tcp::close gave " + r; }
		if (k == 4) { int q[5]; for (int i = 0; i < 5; ++i) { r = w.call("con", p); q[i] = atoi(r.c_str()); if (q[i] < 3) bad = sf("connection %d of 5 waiting: ", i) + r; } for (int i = 0; i < 5; ++i) if (q[i] > 2) drop(q[i]); }
		if (k == 5) { r = w.call("nm", p); int q = atoi(r.c_str()); addrinfo* ai = 0; addrinfo h; memset(&h, 0, sizeof h); h.ai_family = AF_INET; bool known = getaddrinfo("localhost", 0, &h, &ai) == 0; if (ai) freeaddrinfo(ai); ai = 0; h.ai_family = AF_UNSPEC; bool four = getaddrinfo("localhost", 0, &h, &ai) == 0 && ai->ai_family == AF_INET; if (ai) freeaddrinfo(ai); if (known && four && q < 3) bad = "tcp::connect to localhost gave " + r; if (q > 2) drop(q); }
		if (k == 6) { addrinfo* ai = 0; bool known = getaddrinfo(names[nm], 0, 0, &ai) == 0; if (ai) freeaddrinfo(ai); r = w.call("un", p); if (known) { if (atoi(r.c_str()) > 2) drop(atoi(r.c_str())); } else { if (r != "-1") bad = S("tcp::connect to ") + names[nm] + " gave " + r; if (fds() != n) bad = "a refused tcp::connect leaves a descriptor"; } }
		if (s > 2) drop(s); } }
	if (bad.empty() && (wr::g_live != live || fds() != fd0)) bad = sf("%ld blocks, %d descriptors left", wr::g_live - live, fds() - fd0); c.trace(); c.outcome(sf("%d", k)); if (!bad.empty()) c.fail(sf("port:%d:%d", k, nm), bad, ""); }
// things that are no sockets, missing arguments, amounts that make no sense
static void unusable(Ctx& c) { static const char* fn[] = { "bind", "accept", "connect", "close", "send", "receive", "peek" }; static const char* av[] = { "-1", "9999", "-2147483648", "1000000", "arr" };
	int f = c.choose(7), n = c.choose(4); S args; for (int i = 0; i < n; ++i) args += (i ? ", " : "") + S(av[c.choose(i == 0 ? 4 : 5)]); c.split(); if (f == 0 && n) { if (args[0] != '-' || 1) throw Skip(); } if (f == 2 && n > 0) args = "\"\"" + (n > 1 ? ", " + args : S());
	if ((f == 6 && n > 1) || (f == 5 && args.find("arr") != S::npos)) throw Skip(); S src = sf("var arr[] = { 1 }; var r = tcp::%s(%s); out(1, r, 2); tcp::%s(%s); out(3);", fn[f], args.c_str(), fn[f], args.c_str()); c.id(sf("odd:%s:", fn[f]) + args); c.note(src); long live = wr::g_live; int fd0 = fds(); wr::g_out.clear(); { W w(src); if (int e = wr_getLastError(w.w)) wr::g_out += sf("!E%d", e); } c.transition(); c.trace(); c.outcome(wr::g_out);
	if (wr::g_out != "1 -1 2;3;" && wr::g_out != "1 0 2;3;") c.fail(sf("odd:%s:", fn[f]) + args, "gives " + wr::g_out, src); if (wr::g_live != live || fds() != fd0) c.fail(sf("odd:leak:%s:", fn[f]) + args, sf("%ld blocks, %d descriptors", wr::g_live - live, fds() - fd0), src); }
// large amounts: everything arrives, in order, in pieces of at most the requested size
static void bulk(Ctx& c) { static const int total[] = { 1, 8191, 8192, 8193, 20000, 60000 }, piece[] = { 0, 1000, 8192, 30000, 65000 }; S lerr = ensureListener(); int t = c.pick(total), p = c.pick(piece), dir = c.choose(2); c.split(); if (!lerr.empty()) { c.id("listen"); c.fail("listen", lerr, ""); return; } drain(); c.id(sf("bulk:%d:%d:%d", t, p, dir)); c.note(sf("%d bytes in pieces of %d", t, p)); long live = wr::g_live; int fd0 = fds(); S bad;
	{ W w(SRC + sf("var got = 0; function big() { var s = \"\"; for ( var i = 0; i < %d; ++i ) { s += \"0123456789\"; } return str::left(s, %d); } function sb(s) { return tcp::send(s, big()); } function sum(d) { var h = 7; for ( var i = 0; i < d._count; ++i ) { h = h * 31 + d[i]; } return h; } function rs(s, n) { var d; if ( n ) { d = tcp::receive(s, n); } else { d = tcp::receive(s); } got = d._count; return sum(d); } function g() { return got; } ", t / 10 + 1, t)); int e[2]; e[0] = atoi(w.call("con", g_port).c_str()); e[1] = atoi(w.call("acc", g_listen).c_str()); if (e[0] < 3 || e[1] < 3) bad = "no connection"; else { nodelay(e[0]); nodelay(e[1]); S r = w.call("sb", e[dir]); if (r != sf("%d", t)) bad = "tcp::send gave " + r; settle(e[1 - dir], t); int lim = p ? p : 8192, at = 0; c.transition();
		while (bad.empty() && at < t) { int want = std::min(lim, t - at); r = w.call("pk", e[1 - dir]); if (r != sf("%d", t - at)) { bad = "tcp::peek gave " + r + sf(" with %d waiting", t - at); break; } r = w.call("rs", e[1 - dir], p); int got = atoi(w.call("g").c_str()); c.transition(); if (got != want) { bad = sf("tcp::receive gave %d bytes instead of %d", got, want); break; } int32_t h = 7; for (int i = 0; i < got; ++i) h = (int32_t)((uint32_t)h * 31u + (uint32_t)('0' + (at + i) % 10)); if (r != sf("%d", h)) { bad = sf("other bytes than were sent at %d", at); break; } at += got; } drop(e[0]); drop(e[1]); } }
	drain(); if (bad.empty() && (wr::g_live != live || fds() != fd0)) bad = sf("%ld blocks, %d descriptors left", wr::g_live - live, fds() - fd0); c.trace(); c.outcome(sf("%d %d", t, p)); if (!bad.empty()) c.fail(sf("bulk:%d:%d:%d", t, p, dir), bad, ""); }
MC_MAIN({ "ports", ports, false }, { "unusable", unusable, false }, { "addresses", addresses, false }, { "bulk", bulk, false }, { "streams", streams, false })
