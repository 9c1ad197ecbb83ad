// P10: the scheduler. Every history of addThread / tick / removeTask up to the bound is run on the real WrenchScheduler and in
// step on a model: a set of coroutines, each a sequence of chunks of output separated by branches, yields, an end or an error.
#include "wr.h"
using namespace mc;
struct Chunk { std::string out; char end; int err; }; // end: F branch, Y explicit yield, D done, E error
static const char* src[] = {
	"out(\"once\");", "var i; for ( i = 0; i < 7; ++i ) { out(\"four\", i); } out(\"four end\");", "var n = 0; for (;;) { out(\"loop\", n); ++n; }", "var k; for ( k = 0; k < 6; ++k ) { out(\"bad\", k); } nofunction(3); out(\"never\");", "nofunction(1);",
	"out(\"y\", yield(1)); var q; for ( q = 0; q < 3; ++q ) { out(\"yy\", q); yield(); } out(\"y end\");", "var s = \"\"; function grow(n) { var t; t = { s, n }; return t; } for ( var j = 0; j < 5; ++j ) { s = s + j; var l; l = grow(j); out(l); }", "function rec(n) { return rec(n + 1); } var z; for ( z = 0; z < 5; ++z ) { out(\"deep\", z); } rec(0);" };
enum { NP = sizeof(src) / sizeof(src[0]) };
static wr::Bytes* bc[NP]; static std::vector<Chunk> model[NP];
static void prep() {
	if (bc[0]) return;
	for (int p = 0; p < NP; ++p) {
		bc[p] = new wr::Bytes; wr::compile(src[p], *bc[p]); WRState* w = wr_newState(40); wr_registerFunction(w, "out", wr::cbOut); wr_setInstructionsPerSlice(w, 1);
		wr::g_out.clear(); WRContext* c = wr_run(w, bc[p]->p, bc[p]->n);
		for (int i = 0; i < 200; ++i) { WRValue* r; Chunk k; k.out = wr::g_out; k.err = wr_getLastError(w); bool y = !k.err && wr_getYieldInfo(c, 0, 0, &r); k.end = k.err ? 'E' : !y ? 'D' : r ? 'Y' : 'F'; model[p].push_back(k); wr::g_out.clear(); if (k.end == 'D' || k.end == 'E') break; wr_continue(c); }
		wr_destroyState(w);
	}
}
struct Task { int p, id; size_t pos; };
// runs one slice of n branches; returns how it ended
static char slice(Task& t, int n, std::vector<std::string>& log, int& err) {
	for (int used = 0;;) { const Chunk& k = model[t.p][t.pos++]; size_t a = 0, b; while ((b = k.out.find(';', a)) != std::string::npos) { log.push_back(k.out.substr(a, b - a)); a = b + 1; } err = k.err; if (k.end != 'F') return k.end; if (++used == n) return 'F'; }
}
static std::string entries(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + ";"; return s; }
static std::vector<std::string> splitOut() { std::vector<std::string> v; size_t a = 0, b; while ((b = wr::g_out.find(';', a)) != std::string::npos) { v.push_back(wr::g_out.substr(a, b - a)); a = b + 1; } wr::g_out.clear(); return v; }
static void histories(Ctx& c) {
	prep(); int len = c.choose(c.thorough() ? 7 : 6), stay = c.choose(2), own = stay; std::string h; long live0 = wr::g_live; std::vector<int> ops; for (int i = 0; i < len; ++i) { ops.push_back(c.choose(NP + 7)); if (i == 1) c.split(); }
	for (int o : ops) h += o < NP ? sf("add%d ", o) : o < NP + 3 ? sf("tick%d ", o - NP == 0 ? 1 : o - NP == 1 ? 2 : 5) : o < NP + 6 ? sf("remove%d ", o - NP - 3) : "clearErr "; c.id(h); c.note("history: " + h + (stay ? "(destroyed with live tasks, owned bytecode)" : "(drained)"));
	{ WrenchScheduler s(40); wr_registerFunction(s.state(), "out", wr::cbOut); long idle = wr::g_live; wr::g_out.clear(); std::vector<Task> t; std::set<int> ids; int lastErr = 0, lastId = 0; bool anyErr2 = false; std::set<int> errIds; int maxId = 0;
	auto fail = [&](const std::string& k, const std::string& m) { c.fail(k + ":" + h, m, h); };
	auto tick = [&](int n) { std::vector<std::string> want; std::set<std::pair<int,int>> errs; for (size_t i = 0; i < t.size();) { int e; char r = slice(t[i], n, want, e); if (r == 'E') errs.insert({ e, t[i].id }); if (r == 'D' || r == 'E') t.erase(t.begin() + i); else ++i; }
		s.tick(n); std::string got = entries(splitOut()), w = entries(want); if (got != w) fail("tick", sf("tick(%d) ran <", n) + got + "> want <" + w + ">");
		if (errs.size()) { if (!errs.count({ s.lastErr(), s.lastErrTaskId() })) fail("err", sf("lastErr %d task %d is not a task that faulted in this tick", s.lastErr(), s.lastErrTaskId())); lastErr = s.lastErr(); lastId = s.lastErrTaskId(); } };
	for (size_t i = 0; i < ops.size() && !c.failed; ++i) { int o = ops[i]; c.transition();
		if (o < NP) { Task k = { o, 0, 0 }; std::vector<std::string> want; int e; char r = slice(k, 3, want, e); unsigned char* copy = 0; if (own) { copy = (unsigned char*)(g_malloc)(bc[o]->n); memcpy(copy, bc[o]->p, bc[o]->n); }
			int id = s.addThread(own ? copy : bc[o]->p, bc[o]->n, 3, own); std::string got = entries(splitOut()), w = entries(want); if (got != w) fail("start", "addThread ran <" + got + "> want <" + w + ">");
			if (r == 'D') { if (id != 0) fail("ret", sf("completed thread: addThread returned %d", id)); } else if (r == 'E') { if (id != -1) fail("ret", sf("faulted thread: addThread returned %d", id)); if (wr_getLastError(s.state()) != e) fail("ret", "wrong error"); }
			else { if (id <= 0 || ids.count(id)) fail("ret", sf("addThread returned id %d", id)); ids.insert(id); k.id = id; t.push_back(k); if (id > maxId) maxId = id; } }
		else if (o < NP + 3) tick(o - NP == 0 ? 1 : o - NP == 1 ? 2 : 5);
		else if (o < NP + 6) { int which = o - NP - 3, id = t.empty() || which == 2 ? (which == 2 && ids.size() > t.size() ? -1 : maxId + 1) : which == 0 ? t.front().id : t.back().id;
			if (id == -1) for (int x : ids) { bool live = false; for (auto& q : t) live |= q.id == x; if (!live) { id = x; break; } } // an id that is gone
			bool want = false; for (size_t q = 0; q < t.size(); ++q) if (t[q].id == id) { t.erase(t.begin() + q); want = true; break; }
			bool got = s.removeTask(id); if (got != want) fail("remove", sf("removeTask(%d) returned %d", id, got)); if (wr::g_out.size()) fail("remove", "removeTask ran code"); }
		else { s.clearErr(); lastErr = lastId = 0; }
		if (s.lastErr() != lastErr || s.lastErrTaskId() != lastId) fail("lasterr", sf("lastErr %d/%d want %d/%d", s.lastErr(), s.lastErrTaskId(), lastErr, lastId));
		std::string st; for (auto& q : t) st += sf("%d.%zu ", q.p, q.pos); c.state(hashs(st) ^ mix(lastErr)); }
	if (!c.failed && !stay) { for (int i = 0; i < 12 && !c.failed; ++i) tick(3); while (!t.empty() && !c.failed) { if (!s.removeTask(t.back().id)) fail("drain", "a running task is not there"); t.pop_back(); } s.tick(3); if (wr::g_out.size()) fail("drain", "an empty scheduler ran something");
		if (!c.failed && wr::g_live != idle) fail("held", sf("an idle scheduler still holds %ld blocks of finished tasks", wr::g_live - idle)); }
	c.trace(); c.outcome(sf("%zu %d", t.size(), lastErr)); }
	if (!c.failed && wr::g_live != live0) c.fail("leak:" + h, sf("%ld blocks leaked", wr::g_live - live0), h);
}
MC_MAIN({ "histories", histories, false })
