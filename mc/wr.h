// Access to the implementation under test through its public API only.
#pragma once
#include "mc.h"
// the library is built as C++98 (as the project builds it); its header lays out types by __cplusplus
#pragma push_macro("__cplusplus")
#undef __cplusplus
#define __cplusplus 199711L
#include "wrench.h"
#undef __cplusplus
#pragma pop_macro("__cplusplus")

namespace wr {
using mc::sf;

// ---------------- tracking / fault-injecting allocator --------------------
struct Hdr { uint64_t magic; uint64_t size; };
extern long g_live, g_liveBytes, g_count, g_failAt, g_failLen, g_badFree, g_maxBytes, g_bytes;
inline long g_live = 0, g_liveBytes = 0, g_count = 0, g_failAt = -1, g_failLen = 1, g_badFree = 0, g_maxBytes = 0, g_bytes = 0;
inline long g_cap = 1L << 30;
inline std::unordered_set<void*>* g_set = 0;   // optional: exact live set (for leak reports)
inline void* talloc(size_t n) {
	long k = g_count++;
	if (g_failAt >= 0 && k >= g_failAt && (g_failLen < 0 || k < g_failAt + g_failLen)) return 0;
	if (g_liveBytes + (long)n > g_cap) { fprintf(stderr, "runaway allocation\n"); abort(); }
	Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
	h->magic = 0xA110C8EDA110C8EDULL; h->size = n;
	memset(h + 1, 0xCD, n);           // results must not depend on recycled memory
	g_live++; g_liveBytes += n; g_bytes += n;
	if (g_liveBytes > g_maxBytes) g_maxBytes = g_liveBytes;
	return h + 1;
}
inline void tfree(void* p) {
	if (!p) return;
	Hdr* h = (Hdr*)p - 1;
	if (h->magic != 0xA110C8EDA110C8EDULL) { g_badFree++; fprintf(stderr, "bad free\n"); abort(); }
	h->magic = 0xDEADDEADDEADDEADULL;
	g_live--; g_liveBytes -= h->size;
	memset(p, 0xDD, h->size); free(h);
}
inline void hookAlloc() { wr_setGlobalAllocator(talloc, tfree); }
inline void resetAlloc() { g_count = 0; g_failAt = -1; g_failLen = 1; g_maxBytes = g_liveBytes; g_bytes = 0; }

// ---------------- canonical rendering of values ---------------------------
inline std::string fbits(float f) { if (f != f) return "fNaN"; char b[48]; snprintf(b, sizeof b, "f%.9g", f); return b; }
inline std::string quote(const char* s, size_t n) { std::string o = "\""; for (size_t i = 0; i < n; ++i) { unsigned char c = s[i]; if (c < 32 || c >= 127 || c == '"') { o += sf("\\x%02x", c); } else o += c; } return o + "\""; }
inline std::string render(const WRValue& v, int depth = 4) {
	int n = 0;
	if (v.isString(&n)) { unsigned l = 0; char* a = (char*)v.array(&l); return quote(a ? a : "", a ? l : 0); }
	if (v.isWrenchArray(&n)) {
		std::string o = "[";
		if (depth <= 0) return "[..]";
		int i = 0;
		for (WRValue::Iterator it = v.begin(); it != v.end() && i < 4096; ++it, ++i) { const WRIteratorEntry& e = *it; if (i) o += ","; o += e.value ? render(*e.value, depth - 1) : "?"; }
		return o + "]";
	}
	if (v.isStruct()) return "struct";
	if (v.isHashTable(&n)) {
		std::vector<std::string> kv;
		if (depth <= 0) return "{..}";
		for (WRValue::Iterator it = v.begin(); it != v.end() && kv.size() < 4096; ++it) { const WRIteratorEntry& e = *it; kv.push_back((e.key ? render(*e.key, depth - 1) : "?") + ":" + (e.value ? render(*e.value, depth - 1) : "?")); }
		std::sort(kv.begin(), kv.end());
		std::string o = "{"; for (size_t i = 0; i < kv.size(); ++i) { if (i) o += ","; o += kv[i]; } return o + "}";
	}
	if (v.isFloat()) return fbits(v.asFloat());
	if (v.isInt()) return sf("%d", v.asInt());
	if (v.isRawArray(&n)) { unsigned l = 0; char* a = (char*)v.array(&l); return "raw" + quote(a ? a : "", a ? l : 0); }
	{ WRValue& d = v.deref(); if (&d != &v) { // a reference to a container element
		if (depth <= 0) return "&";
		return render(d, depth - 1); } }
	return "?";
}
inline const char* errName(int e) { return sf("E%d", e).c_str(); }

// ---------------- script output ------------------------------------------
inline std::string g_out;
inline long g_outCap = 1 << 20;
// out(...): appends the canonical rendering of its arguments; returns its argument count
inline void cbOut(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*) {
	for (int i = 0; i < argn; ++i) { if (i) g_out += ' '; g_out += render(argv[i]); }
	g_out += ';';
	if ((long)g_out.size() > g_outCap) { fprintf(stderr, "runaway output\n"); abort(); }
	wr_makeInt(&ret, argn);
}

struct Bytes { unsigned char* p = 0; int n = 0; int err = 0; std::string msg;
	~Bytes() { if (p) wrfree(); }
	void wrfree() { (g_free)(p); p = 0; }
	Bytes() {} Bytes(const Bytes&) = delete; Bytes& operator=(const Bytes&) = delete;
	unsigned char* release() { unsigned char* q = p; p = 0; return q; } };
// exact-size heap copy of the source so that any over-read is visible to ASan
inline int compile(const std::string& src, Bytes& b, int flags = WR_INCLUDE_GLOBALS, bool msg = false) {
	char* s = (char*)malloc(src.size() ? src.size() : 1); memcpy(s, src.data(), src.size());
	b.err = wr_compile(s, (int)src.size(), &b.p, &b.n, 0, (uint8_t)flags);
	free(s);
	return b.err;
}

// compile, run once in a fresh state; result = output + final error
struct RunOpt { int stack = 64; int flags = WR_INCLUDE_GLOBALS; long gcHint = -1; bool libs = false; void (*setup)(WRState*) = 0; };
inline std::string runScript(const std::string& src, const RunOpt& o = RunOpt()) {
	g_out.clear();
	Bytes b;
	if (compile(src, b, o.flags)) return sf("COMPILE%d", b.err);
	WRState* w = wr_newState(o.stack);
	if (o.libs) wr_loadAllLibs(w);
	wr_registerFunction(w, "out", cbOut);
	if (o.setup) o.setup(w);
	if (o.gcHint >= 0) wr_setAllocatedMemoryGCHint(w, (uint32_t)o.gcHint);
	WRContext* c = wr_run(w, b.p, b.n);
	std::string r = g_out;
	int e = wr_getLastError(w);
	if (e) r += sf("!E%d", e);
	if (c && wr_getYieldInfo(c)) r += "!YIELD";
	wr_destroyState(w);
	return r;
}
} // namespace wr

#define MC_MAIN(...) int main(int argc, char** argv) { mc::Engine e; e.scen = { __VA_ARGS__ }; e.perWorkerInit = wr::hookAlloc; return e.main(argc, argv); }
