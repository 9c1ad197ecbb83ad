// P13: damaged bytecode is refused at every door. Every truncation, every one-byte change, every one-byte extension and every
// exchange of two neighbours of a corpus of compiled programs goes through every entry point that accepts bytecode; the block lies
// in an exact-size heap buffer, so a read outside it is an AddressSanitizer report.
#include "frag.h"
static const char* corpus[] = {
	"", "out(1);", "var a = 5; out(a);", "function f(x) { return x + 1; } out(f(2));", "struct S { var m = 3; }; var s = new S(); out(s.m);", "var h = { \"k\":1, 2:\"v\" }; for ( var k, var v : h ) { out(k); } switch ( h.k ) { case 1: out(9); break; default: out(8); }",
	"var g1; var g2 = \"text\"; function one() { return g2; } function two(p, q) { var t = p; while ( t < 3 ) { ++t; } return t + q; } export function three(z) { return yield(z); } out(two(1, one()));", "enum { A, B, C } var arr[] = { A, B, C, 1.5, 100000 }; out(arr); out(str::format(\"%d\", arr[1]));" };
enum { NC = sizeof(corpus) / sizeof(corpus[0]) };
static const int flagsOf[] = { 1, 0, 2, 4, 7 };
#ifndef WRENCH_TIME_SLICES
struct WrenchScheduler;
#endif
static std::string g_blk; static bool g_used;
static void cbBlk(WRContext* c, const WRValue*, const int, WRValue& r, void*) { wr_makeString(c, &r, g_blk.data(), (int)g_blk.size()); }
static void cbUsed(WRContext*, const WRValue*, const int, WRValue& r, void*) { g_used = true; wr_makeInt(&r, 0); }
static unsigned char* heap(const std::string& s) { unsigned char* p = (unsigned char*)wr_malloc(s.size()); memcpy(p, s.data(), s.size()); return p; }
enum { VALID, RUN, RUNOWN, RUNONCE, NEWCTX, NEWOWN, IMPORT, IMPOWN, SCRIPT, SCHED, DISASM, NENTRY };
static const char* entryName[] = { "wr_isBytecodeValid", "wr_run", "wr_run(own)", "wr_run(once)", "wr_newContext", "wr_newContext(own)", "wr_import", "wr_import(own)", "sys::importByteCode", "WrenchScheduler::addThread", "wr_disassemble" };
struct World { WRState* w = 0; WRContext* host = 0; wr::Bytes b, imp; WrenchScheduler* s = 0; long live = 0; std::string listing0;
	World() { w = wr_newState(64); wr_loadAllLibs(w); reg(w); const char* src = "var keep = 41; function fine(x) { return keep + x; } function tryimp() { sys::importByteCode(blk()); return 5; }"; wr::compile(src, b); host = wr_run(w, b.p, b.n);
#ifdef WRENCH_TIME_SLICES
		s = new WrenchScheduler(64); wr_loadAllLibs(s->state()); reg(s->state());
#endif
		callFine(); live = wr::g_live; }
	static void reg(WRState* w) { wr_registerFunction(w, "out", cbUsed); wr_registerFunction(w, "blk", cbBlk); }
	bool callFine() { WRValue v; wr_makeInt(&v, 1); WRValue* r = wr_callFunction(host, "fine", &v, 1); return r && r->asInt() == 42 && !wr_getLastError(w); }
	~World() {
#ifdef WRENCH_TIME_SLICES
		delete s;
#endif
		wr_destroyState(w); } };
// offers the block at one door; returns what is wrong, or ""
static std::string offer(World& W, int e, const std::string& m, bool good) {
	g_used = false; unsigned char* p = heap(m); bool mine = true; std::string bad; int n = (int)m.size(); WRContext* c = 0; wr_getLastError(W.w);
	switch (e) {
	case VALID: { uint32_t h = 7; bool v = wr_isBytecodeValid(p, n, &h); if (v != good || wr_isBytecodeValid(p, n) != good) bad = v ? "reported as valid" : "good block reported as invalid"; break; }
	case RUN: c = wr_run(W.w, p, n); break;
	case RUNOWN: c = wr_run(W.w, p, n, true); mine = false; break;
	case RUNONCE: c = wr_run(W.w, p, n, false, true); break;
	case NEWCTX: c = wr_newContext(W.w, p, n); break;
	case NEWOWN: c = wr_newContext(W.w, p, n, true); mine = false; break;
	case IMPORT: c = wr_import(W.host, p, n); break;
	case IMPOWN: c = wr_import(W.host, p, n, true); mine = false; break;
	case SCRIPT: { g_blk = m; WRState* t = wr_newState(64); wr_loadSysLib(t); if (good) wr_loadStringLib(t); World::reg(t); WRContext* h = wr_run(t, W.b.p, W.b.n); WRValue v; wr_makeInt(&v, 1); wr_callFunction(h, "tryimp"); if (!good && wr_getLastError(t) != WR_ERR_bad_bytecode_CRC) bad = sf("error %d instead of WR_ERR_bad_bytecode_CRC", wr_getLastError(t)); if (good && wr_getLastError(t)) bad = "good block refused"; WRValue* r = wr_callFunction(h, "fine", &v, 1); if (!r || r->asInt() != 42) bad = "the context is disturbed"; wr_destroyState(t); break; }
	case SCHED: {
#ifdef WRENCH_TIME_SLICES
		int id = W.s->addThread(p, n, 50, false); if (!good && id != -1) bad = sf("accepted as task %d", id); if (!good && wr_getLastError(W.s->state()) != WR_ERR_bad_bytecode_CRC) bad = "wrong error"; if (good && id) bad = sf("good block refused: %d", id); break;
#else
		break;
#endif
	}
	case DISASM: { char* o = 0; unsigned l = 0; wr_disassemble(p, n, &o, &l); if (!o) bad = "no listing"; else { if (good == (strncmp(o, "err", 3) == 0)) bad = std::string("listing: ") + std::string(o).substr(0, 80); wr_free(o); } break; }
	}
	if (!good && bad.empty()) {
		if (g_used) bad = "its code ran"; else if (c) bad = "accepted";
		else if (e != VALID && e != SCHED && e != SCRIPT && e != DISASM && wr_getLastError(W.w) != WR_ERR_bad_bytecode_CRC) bad = sf("error %d instead of WR_ERR_bad_bytecode_CRC", wr_getLastError(W.w));
	}
	if (good && bad.empty() && e >= RUN && e <= IMPOWN && e != RUNONCE && !c) bad = sf("good block refused: %d", wr_getLastError(W.w));
	if (good && c && e >= RUN && e <= NEWOWN) wr_destroyContext(c);
	if (good && (e == IMPORT || e == IMPOWN)) return bad; // stays attached to the host context: the block has to stay as well
	if (mine) wr_free(p);
	if (bad.empty() && !W.callFine()) bad = "the context is disturbed";
	if (bad.empty() && wr::g_live != W.live) bad = sf("leaks %ld blocks", wr::g_live - W.live);
	return bad;
}
static std::string program(Ctx& c, int& p, int& f) { p = c.choose(NC); f = c.choose(5); wr::Bytes b; if (wr::compile(corpus[p], b, flagsOf[f])) throw Fail(); return std::string((char*)b.p, b.n); }
static void judge(Ctx& c, World& W, const std::string& m, const std::string& what, int from = 0, int to = NENTRY) {
	for (int e = from; e < to; ++e) { if (e == SCHED && !W.s) continue; c.note(what + " offered to " + entryName[e]); std::string r = offer(W, e, m, false); c.transition(); if (r.size()) { c.fail(std::string("damaged:") + entryName[e], what + " offered to " + entryName[e] + ": " + r, what); return; } }
}
static void good(Ctx& c) { int p, f; std::string b = program(c, p, f); c.split(); for (int e = 0; e < NENTRY; ++e) { World W; if (e == SCHED && !W.s) continue; c.id(sf("good:%d:%d:%d", p, f, e)); c.note(sf("program %d flags %d undamaged to %s", p, flagsOf[f], entryName[e])); if (e == IMPORT) continue; // the block would have to outlive the state
		std::string r = offer(W, e, b, true); c.transition(); if (r.size()) c.fail(std::string("good:") + entryName[e], sf("program %d flags %d: ", p, flagsOf[f]) + r, corpus[p]); } c.trace(); }
static void truncated(Ctx& c) { int p, f; std::string b = program(c, p, f); int end = c.choose(2); c.split(); World W; for (int n = 0; n < (int)b.size(); ++n) { c.id(sf("trunc:%d:%d:%d:%d", p, f, end, n)); judge(c, W, end ? b.substr(b.size() - n) : b.substr(0, n), sf("program %d flags %d %s %d of %d bytes", p, flagsOf[f], end ? "last" : "first", n, (int)b.size())); c.state(hashs(sf("%d %d %d %d", p, f, end, n))); } c.trace(); }
static void extended(Ctx& c) { int p, f; std::string b = program(c, p, f); c.split(); World W; for (int v = 0; v < 256; ++v) for (int end = 0; end < 2; ++end) { c.id(sf("ext:%d:%d:%d:%d", p, f, end, v)); judge(c, W, end ? b + std::string(1, (char)v) : std::string(1, (char)v) + b, sf("program %d flags %d with byte %d %s", p, flagsOf[f], v, end ? "appended" : "in front")); c.state(hashs(sf("%d %d %d %d", p, f, end, v))); } c.trace(); }
static void swapped(Ctx& c) { int p, f; std::string b = program(c, p, f); c.split(); World W; for (size_t i = 0; i + 1 < b.size(); ++i) { if (b[i] == b[i + 1]) continue; std::string m = b; std::swap(m[i], m[i + 1]); c.id(sf("swap:%d:%d:%d", p, f, (int)i)); judge(c, W, m, sf("program %d flags %d bytes %d and %d exchanged", p, flagsOf[f], (int)i, (int)i + 1)); c.state(hashs(m)); } c.trace(); }
static void changed(Ctx& c) { int p, f; std::string b = program(c, p, f); if (!c.thorough() && f && f != 4 && p) throw Skip(); int part = c.choose(8); c.split(); World W; for (size_t i = part; i < b.size(); i += 8) for (int x = 1; x < 256; ++x) { std::string m = b; m[i] ^= (char)x; bool all = c.thorough() || (x & (x - 1)) == 0 || x == 255; c.id(sf("byte:%d:%d:%d:%d", p, f, (int)i, x)); judge(c, W, m, sf("program %d flags %d byte %d xor %d", p, flagsOf[f], (int)i, x), 0, all ? NENTRY : RUN + 1); c.state(hashs(m)); } c.trace(); }
// a block compiled by another major version carries another check value
static void twobits(Ctx& c) { int p, f; std::string b = program(c, p, f); if (!c.thorough() && b.size() > 120) throw Skip(); int part = c.choose(16); c.split(); World W; int nb = (int)b.size() * 8; for (int i = part; i < nb; i += 16) for (int j = i + 1; j < nb; ++j) { std::string m = b; m[i / 8] ^= 1 << (i & 7); m[j / 8] ^= 1 << (j & 7); c.id(sf("bits:%d:%d:%d:%d", p, f, i, j)); judge(c, W, m, sf("program %d flags %d bits %d and %d inverted", p, flagsOf[f], i, j), 0, 1); } c.trace(); }
// long blocks: the check covers every byte however long the program is
static void longer(Ctx& c) {
	static const int len[] = { 60, 120, 128, 250, 500, 1000, 1900, 4000 }; int k = c.choose(8), kind = c.choose(3), f = c.choose(2), part = c.choose(4); c.split(); std::string s = "var a = 1; ";
	for (int i = 0; i < len[k]; ++i) s += kind == 0 ? std::string("a = a + 70000; ") : kind == 1 ? sf("{ var v = \"text %d\"; } ", i) : sf("if ( a == %d ) { out(a); } ", i); wr::Bytes b; if (wr::compile(s.c_str(), b, f ? 4 : 1)) return; std::string B((char*)b.p, b.n); World W; c.id(sf("long:%d:%d:%d", k, kind, f));
	{ std::string r = offer(W, VALID, B, true); if (r.size()) c.fail("good:long", sf("%d bytes: ", b.n) + r, s.substr(0, 300)); }
	std::set<int> at; for (int i = 0; i < 8; ++i) { at.insert(i); at.insert(b.n - 1 - i); } for (int p2 = 8; p2 < b.n; p2 *= 2) { at.insert(p2 - 1); at.insert(p2); at.insert(b.n - p2); at.insert(b.n - p2 - 1); } for (int i = 0; i < b.n; i += b.n / 40 + 1) at.insert(i);
	int j = 0; for (int i : at) if (j++ % 4 == part) for (int x : { 1, 128, 255 }) { std::string m = B; m[i] ^= (char)x; judge(c, W, m, sf("a block of %d bytes, byte %d xor %d", b.n, i, x)); c.state(hashs(sf("%d %d %d %d %d", k, kind, f, i, x))); }
	for (int cut : { 1, 4, b.n / 2, b.n - 3 }) if (part == 0) { judge(c, W, B.substr(0, b.n - cut), sf("a block of %d bytes without the last %d", b.n, cut)); judge(c, W, B.substr(cut), sf("a block of %d bytes without the first %d", b.n, cut)); }
	c.trace(); }
MC_MAIN({ "longer", longer, false }, { "good", good, false }, { "truncated", truncated, false }, { "extended", extended, false }, { "swapped", swapped, false }, { "changed", changed, false }, { "twobits", twobits, false })
