// P06: every API history returns all memory. All sequences (up to the bound) of host API operations over one state; after
// each history the contexts are destroyed in one of three orders; the block ledger of the allocator must return to its
// starting value exactly once per block (double frees abort in the allocator / AddressSanitizer).
#include "wr.h"
using namespace mc;
static const char* SRC[] = {
	/*0 plain     */ "var g = \"x\" + 1; var k = 0; struct S { var m = \"q\" + 1; var n; };\nfunction f(a) { g = { a, \"s\" + a, { \"k\": a } }; var s = new S(); s.m = g; k = s; return \"r\" + a; }\n f(3);",
	/*1 yields    */ "var g = 1; function y(p) { var l = { p, \"l\" + p }; yield(\"y\" + p, l); return l; }\nfunction f(a) { return a; }\n var i; for ( i = 0; i < 2; ++i ) { var s = \"a\" + i; yield(s); g = y(i); }",
	/*2 fails     */ "var g = { 1, \"two\" + 2 }; function f(a) { var l = \"l\" + a; nosuch(l); return l; }\n g = f(1);",
	/*3 hash      */ "var g = { 1:2 }; function f(a) { for ( var i = 0; i < 20; ++i ) { g[\"k\" + i] = { i }; g[a] = g; } return g; }\n f(1); hash::remove(g, \"k1\");",
	/*4 lib use   */ "var g = 0; function f(a) { g = str::sprintf(\"%s-%d\", \"a\" + a, 5); return str::concat(g, \"zz\"); }\n f(1); g = std::serialize(f(2)); g = std::deserialize(g); msg::write(5, 7); msg::read(5); array::clear(g); list::push(g, f(3));",
	/*5 fails call*/ "var g = 1; function f(a) { var l = { a, \"p\" + a }; g = nosuch::fn(l); return l; }\n function ok() { return \"k\" + 1; } g = ok();",
	/*6 fails late*/ "var g = { 4 }; function f(a) { return \"f\" + a; } yield(f(1)); g = f(2); nosuch();",
};
enum { NSRC = sizeof(SRC) / sizeof(SRC[0]) };
static wr::Bytes* BC[NSRC]; static wr::Bytes* bad;
static std::vector<unsigned char> exact[NSRC];
static void prep() { if (BC[0]) return; for (int i = 0; i < NSRC; ++i) { BC[i] = new wr::Bytes; if (wr::compile(SRC[i], *BC[i])) { fprintf(stderr, "prep %d: %d\n", i, BC[i]->err); abort(); } } }
static unsigned char* dupBC(int i) { unsigned char* p = (unsigned char*)wr_malloc(BC[i]->n); memcpy(p, BC[i]->p, BC[i]->n); return p; }
struct Cx { WRContext* c; int src; bool ran; std::vector<WRContext*> imp; };
struct Host { WRState* w; std::vector<Cx> cs; std::vector<WRValue*> perm; };
enum Op { RUN0, RUN1, RUN2, RUN3, RUN4, RUN6, OWN0, OWN1, OWN2, OWNBAD, NEW0, NEWOWN1, EXEC, CALLI, CALLS, CALLMISS, CONT, DESTNEW, DESTOLD, IMP0, IMPOWN3, IMPFAIL, IMPYIELD, IMPBAD, IMPIMP, CALLIMP, CMDOK, CMDERR, ONCE, CONTAINER, INST, SER, MSTR, LIBCALL, HINT0, DISASM, RUNAUTO, GLOB, CALLPTR, NOPS };
static const char* opName[] = { "run0", "run-yield", "run-fail", "run3", "run4", "run6", "own0", "own-yield", "own-fail", "own-bad", "new0", "newown-yield", "exec", "call-int", "call-str", "call-missing", "continue", "destroy-newest", "destroy-oldest", "import0", "import-own3", "import-fail", "import-yield", "import-bad", "import-into-import", "call-import", "command", "command-err", "once", "container", "instance", "serialize", "mallocstr", "libcall", "gc-always", "disasm", "run-autodestroy", "global-set", "call-ptr" };
static void cbHost(WRContext* c, const WRValue* a, const int n, WRValue& r, void*) { wr_makeString(c, &r, "hh", 2); }
static bool apply(Ctx& c, Host& h, int op) {
	auto add = [&](WRContext* x, int s, bool ran) { if (x) h.cs.push_back({ x, s, ran, {} }); };
	auto own = [&](int s) { add(wr_run(h.w, dupBC(s), BC[s]->n, true), s, true); };
	auto run = [&](int s) { add(wr_run(h.w, BC[s]->p, BC[s]->n), s, true); };
	bool has = !h.cs.empty(); Cx* t = has ? &h.cs.back() : 0;
	bool yl = has && wr_getYieldInfo(t->c);
	switch (op) {
		case RUN0: run(0); return true; case RUN1: run(1); return true; case RUN2: run(2); return true; case RUN3: run(3); return true; case RUN4: run(4); return true; case RUN6: run(6); return true;
		case OWN0: own(0); return true; case OWN1: own(1); return true; case OWN2: own(2); return true;
		case OWNBAD: { unsigned char* p = dupBC(0); p[BC[0]->n / 2] ^= 0x40; if (wr_run(h.w, p, BC[0]->n, true)) c.fail("own-bad", "damaged block accepted"); return true; }
		case NEW0: add(wr_newContext(h.w, BC[0]->p, BC[0]->n), 0, false); return true;
		case NEWOWN1: add(wr_newContext(h.w, dupBC(1), BC[1]->n, true), 1, false); return true;
		case EXEC: if (!has || (yl)) return false; wr_executeContext(t->c); t->ran = true; return true;
		case CALLI: { if (!has) return false; WRValue v; wr_makeInt(&v, 5); wr_callFunction(t->c, "f", &v, 1); return true; }
		case CALLS: { if (!has || yl) return false; WRValue v[2]; wr_makeString(t->c, v, "arg", 3); wr_makeFloat(v + 1, 1.5f); wr_callFunction(t->c, "f", v, 2); return true; }
		case CALLMISS: if (!has || yl) return false; wr_callFunction(t->c, "nosuchfn"); return true;
		case CONT: if (!has) return false; wr_continue(t->c); return true;
		case DESTNEW: if (!has) return false; wr_destroyContext(t->c); h.cs.pop_back(); return true;
		case DESTOLD: if (h.cs.size() < 2) return false; wr_destroyContext(h.cs[0].c); h.cs.erase(h.cs.begin()); return true;
		case IMP0: case IMPFAIL: case IMPYIELD: { if (!has) return false; int s = op == IMP0 ? 0 : op == IMPFAIL ? 2 : 1; WRContext* i = wr_import(t->c, BC[s]->p, BC[s]->n); if (i) t->imp.push_back(i); if ((op == IMP0) != (i != 0)) c.fail(std::string("import:") + opName[op], "unexpected import result"); return true; }
		case IMPOWN3: { if (!has) return false; WRContext* i = wr_import(t->c, dupBC(3), BC[3]->n, true); if (i) t->imp.push_back(i); return true; }
		case IMPBAD: { if (!has) return false; unsigned char* p = dupBC(0); p[3] ^= 1; if (wr_import(t->c, p, BC[0]->n, true)) c.fail("import-bad", "damaged block accepted"); return true; }
		case IMPIMP: { if (!has || t->imp.empty()) return false; WRContext* i = wr_import(t->imp.back(), dupBC(0), BC[0]->n, true); if (i) t->imp.push_back(i); return true; }
		case CALLIMP: { if (!has || t->imp.empty() || yl) return false; WRValue v; wr_makeInt(&v, 9); wr_callFunction(t->imp.back(), "f", &v, 1); return true; }
		case CMDOK: wr_runCommand(h.w, "var a = { 1, \"x\" + 2 }; function q() { return a; } q();"); return true;
		case CMDERR: wr_runCommand(h.w, "var a = { 1, \"x\" + 2 }; function q() { return ( a; } q();"); return true;
		case ONCE: wr_runOnce(h.w, BC[0]->p, BC[0]->n); return true;
		case RUNAUTO: wr_run(h.w, dupBC(1), BC[1]->n, true, true); return true;
		case CONTAINER: { if (!has || !t->ran) return false; WRValue v, a; int arr[4] = { 1 }; wr_makeContainer(&v); wr_addIntToContainer(&v, "i", 1); wr_makeInt(&a, 5); wr_addValueToContainer(&v, "v", &a); wr_addFloatToContainer(&v, "fl", 2.5f); wr_addIntToContainer(&v, "i", 2); wr_addArrayToContainer(&v, "arr", (char*)arr, 16); for (int i = 0; i < 9; ++i) wr_addIntToContainer(&v, sf("k%d", i).c_str(), i);
			if (!yl && t->src != 3 && t->src != 0) wr_callFunction(t->c, "f", &v, 1); if (WRValue* g = wr_getGlobalRef(t->c, "g")) if (t->src != 0) g->init(); wr_destroyContainer(&v); return true; }
		case INST: { if (!has || yl || !t->ran || t->src != 0) return false; WRValue v; v.init(); wr_instanceStruct(&v, t->c, "S"); wr_instanceStruct(&v, t->c, "Nope"); return true; }
		case SER: { if (!has) return false; WRValue* g = wr_getGlobalRef(t->c, "g"); if (!g || t->src == 3) return false; char* b = 0; int n = 0; if (wr_serialize(&b, &n, *g)) { WRValue v; v.init(); if (!wr_deserialize(t->c, v, b, n)) c.fail("serialize", "own image rejected"); wr_deserialize(t->c, v, b, n / 2); wr_free(b); } return true; }
		case MSTR: { if (!has) return false; WRValue* g = wr_getGlobalRef(t->c, "g"); if (!g || t->src == 3) return false; { WRValue::MallocStrScoped s(*g); if ((const char*)s) c.outcome((const char*)s); } return true; }
		case LIBCALL: { if (!has || !t->ran || yl) return false; WRValue v[2]; wr_makeString(t->c, v, "ab", 2); wr_makeInt(v + 1, 1); wr_callFunction(t->c, "str::left", v, 2); return true; }
		case HINT0: wr_setAllocatedMemoryGCHint(h.w, 0); return true;
		case DISASM: { char* o = 0; unsigned n = 0; wr_disassemble(BC[1]->p, BC[1]->n, &o, &n); wr_free(o); return true; }
		case GLOB: { if (!has || !t->ran) return false; WRValue* g = wr_getGlobalRef(t->c, "g"); if (!g) return false; wr_makeString(t->c, g, "host", 4); return true; }
		case CALLPTR: { if (!has || !t->ran || yl) return false; WRFunction* f = wr_getFunction(t->c, "f"); if (!f) return false; WRValue v; wr_makeInt(&v, 5); wr_callFunction(t->c, f, &v, 1); wr_callFunction(t->c, f); return true; }
	}
	return false;
}
static void hist(Ctx& c, int len, bool libs) {
	prep(); long base = wr::g_live; Host h; int lib = libs ? c.choose(2) : 0; h.w = wr_newState(80); wr_loadAllLibs(h.w);
	wr_registerFunction(h.w, "host", cbHost); long empty = wr::g_live;
	std::string key; bool skip = false; 
	for (int i = 0; i < len && !skip; ++i) { int op = c.choose(NOPS); key += std::string(i ? "," : "") + opName[op]; if (i == (len > 2 ? 1 : 0)) { try { c.split(); } catch (Skip&) { wr_destroyState(h.w); throw; } } c.note(key); if (!apply(c, h, op)) skip = true; else c.transition(); }
	int end = skip ? 0 : c.choose(3); long live = wr::g_live; c.state(sf("%ld %zu", live - empty, h.cs.size()) + key.substr(0, 20)); c.note(key + sf(" end=%d", end));
	if (end == 1) while (!h.cs.empty()) { wr_destroyContext(h.cs.back().c); h.cs.pop_back(); }
	if (end == 2) while (!h.cs.empty()) { wr_destroyContext(h.cs[0].c); h.cs.erase(h.cs.begin()); }
	if (end) { if (wr::g_live != empty) c.fail("context-leak:" + key, sf("%ld blocks still held after every context was destroyed", wr::g_live - empty)); }
	wr_destroyState(h.w);
	if (wr::g_live != base) c.fail("leak:" + key, sf("%ld blocks never freed (end mode %d)", wr::g_live - base, end));
	if (skip) throw Skip();
	c.outcome(key + sf("%d %ld", end, live)); c.trace();
}
static void histories(Ctx& c) { hist(c, c.thorough() ? 4 : 3, false); }
// longer histories over one or two contexts: only the operations that act on an existing context
static void deep(Ctx& c) {
	static const int starts[] = { RUN0, OWN1, RUN3, RUN4, RUN6, NEWOWN1 }; static const int acts[] = { CALLI, CALLS, CALLMISS, CONT, DESTNEW, IMP0, IMPFAIL, IMPIMP, CALLIMP, CONTAINER, INST, SER, LIBCALL, HINT0, GLOB, EXEC, OWN1 };
	prep(); long base = wr::g_live; Host h; int len = c.thorough() ? 5 : 4; h.w = wr_newState(80); wr_loadAllLibs(h.w); long empty = wr::g_live; std::string key;
	int s = starts[c.choose(6)]; key = opName[s]; c.note(key); apply(c, h, s); bool skip = false;
	for (int i = 0; i < len && !skip; ++i) { int op = acts[c.choose(17)]; key += std::string(",") + opName[op]; if (i == 0) { try { c.split(); } catch (Skip&) { wr_destroyState(h.w); throw; } } c.note(key); if (!apply(c, h, op)) skip = true; else c.transition(); }
	if (!skip) while (!h.cs.empty()) { wr_destroyContext(h.cs.back().c); h.cs.pop_back(); }
	if (!skip && wr::g_live != empty) c.fail("context-leak:" + key, sf("%ld blocks still held after every context was destroyed", wr::g_live - empty));
	wr_destroyState(h.w); if (wr::g_live != base) c.fail("leak:" + key, sf("%ld blocks never freed", wr::g_live - base)); if (skip) throw Skip(); c.outcome(key); c.trace();
}
MC_MAIN({ "histories", histories, false }, { "deep", deep, false })
