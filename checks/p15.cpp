// P15: serialization. Value trees are enumerated and built by a script; every one goes through wr_serialize / wr_deserialize and
// std::serialize / std::deserialize, into the same context, another context and another state. Damaged buffers (every truncation,
// every one-byte change) and all short byte strings over the alphabet of the format are offered to the decoder.
#include "wr.h"
using namespace mc;
static const char* leaf[] = { "0", "-1", "2147483647", "70000", "1.5", "-0.25", "\"\"", "\"x\"", "\"a\\0b\"", "\"a longer string with spaces\"" };
enum { NL = sizeof(leaf) / sizeof(leaf[0]) };
// a term is built by statements that leave it in variable v<n>
struct Gen { std::string code; int n = 0, left = 4;
	std::string var() { return sf("v%d", n++); }
	std::string term(Ctx& c, int depth, bool small) {
		std::string v = var(); int maxc = depth > 0 ? (left < 3 ? left : 3) : -1, pickLeaf = small ? 4 : NL, k = c.choose(pickLeaf + 2 * (maxc + 1)); static const int sm[] = { 1, 4, 6, 8 };
		if (k < pickLeaf) { code += "var " + v + " = " + leaf[small ? sm[k] : k] + "; "; return v; }
		k -= pickLeaf; int cnt = k % (maxc + 1); bool hash = k > maxc; left -= cnt; std::vector<std::string> ch; for (int i = 0; i < cnt; ++i) ch.push_back(term(c, depth - 1, small || cnt > 1 || depth > 1));
		static const char* key[] = { "\"k\"", "-1", "0" };
		if (hash) { code += "var " + v + "; hash::clear(" + v + "); "; for (int i = 0; i < cnt; ++i) code += v + "[" + key[i] + "] = " + ch[i] + "; "; }
		else { code += "var " + v + "[]; "; for (int i = 0; i < cnt; ++i) code += v + sf("[%d] = ", i) + ch[i] + "; "; }
		return v; } };
static std::string hex(const std::string& s) { std::string o; for (unsigned char ch : s) o += sf("%02x", ch); return o; }
static WRState* mk(int hint = -1) { WRState* w = wr_newState(64); wr_loadAllLibs(w); wr_registerFunction(w, "out", wr::cbOut); if (hint >= 0) wr_setAllocatedMemoryGCHint(w, hint); return w; }
static const char* USE = "function size(x) { return x._count; } function look(x, k) { return x[k]; } function has(x, k) { return x._exists(k); } function grow(x) { for ( var i = 100; i < 112; ++i ) { x[i] = i; } return x; } function arrs(x) { x[5] = \"new\"; return x; } ";
struct W2 { WRState* w; WRContext* c; wr::Bytes b; W2(int hint = -1) { w = mk(hint); wr::compile(USE, b); c = wr_run(w, b.p, b.n); } ~W2() { wr_destroyState(w); } };
static std::string call(WRContext* c, const char* f, WRValue* a, WRValue* k = 0) { WRValue v[2]; v[0] = *a; if (k) v[1] = *k; WRValue* r = wr_callFunction(c, f, v, k ? 2 : 1); return r ? wr::render(*r) : "null"; }
static void round(Ctx& c, const std::string& code, const std::string& v, const std::string& id) {
	c.id(id); c.note(code); long live0 = wr::g_live;
	{ // in the script
		wr::RunOpt o; o.libs = true; o.flags = 1; for (int gc = 0; gc < 2; ++gc) { o.gcHint = gc ? 0 : 4000; std::string r = wr::runScript(code + "var before = 0; out(" + v + "); var s = std::serialize(" + v + "); var d = std::deserialize(s); out(d); out(std::deserialize(std::serialize(d))); out(" + v + "); var e = { d, d }; out(std::deserialize(std::serialize(e))[1]); d = 0; e = 0; out(std::deserialize(s)); ", o); c.transition();
			std::vector<std::string> p; size_t a = 0, q; while ((q = r.find(';', a)) != std::string::npos) { p.push_back(r.substr(a, q - a)); a = q + 1; } bool ok = p.size() == 6 && a == r.size(); for (auto& x : p) ok = ok && x == p[0]; if (!ok) { c.fail("script:" + id, "script round trip: " + r.substr(0, 400), code); return; } } }
	std::string bytes, ref; { W2 other, third(0); WRState* w = mk(); wr::Bytes b; if (wr::compile(code + USE, b)) { c.fail("compile", code); wr_destroyState(w); return; } WRContext* x = wr_run(w, b.p, b.n); WRContext* y = wr_newContext(w, other.b.p, other.b.n); wr_executeContext(y);
		WRValue* g = wr_getGlobalRef(x, v.c_str()); ref = wr::render(*g); char* buf = 0; int len = 0; if (!wr_serialize(&buf, &len, *g)) c.fail("refused:" + id, "wr_serialize refused " + ref, code); else { bytes.assign(buf, len); wr_free(buf); c.transition();
			WRContext* to[] = { x, y, other.c, third.c }; for (int t = 0; t < 4; ++t) { char* in = (char*)malloc(bytes.size()); memcpy(in, bytes.data(), bytes.size()); WRValue d; memset((void*)&d, 0x55, sizeof d); bool ok = wr_deserialize(to[t], d, in, (int)bytes.size()); free(in); std::string got = ok ? wr::render(d) : "refused"; c.transition(); if (got != ref) { c.fail("host:" + id, sf("target %d: ", t) + got + " instead of " + ref, code); break; }
				WRValue gv = *g; std::string n1 = call(x, "size", &gv), n2 = call(to[t], "size", &d); if (n1 != n2) c.fail("count:" + id, sf("target %d: _count ", t) + n2 + " instead of " + n1, code);
				static const int ks[] = { 0, -1, 1, 2 }; if (ref[0] == '{') { for (int k : ks) { WRValue kv; wr_makeInt(&kv, k); std::string e1 = call(x, "has", &gv, &kv), e2 = call(to[t], "has", &d, &kv); if (e1 != e2) { c.fail("lookup:" + id, sf("key %d ", k) + e2 + " instead of " + e1, code); break; } }
					std::string a = call(to[t], "grow", &d); size_t pos = 0, cnt = 0; while ((pos = a.find(":1", pos)) != std::string::npos) { ++pos; ++cnt; } if (cnt < 12) c.fail("grow:" + id, "after growing: " + a, code); int want = atoi(n1.c_str()) + 12; if (call(to[t], "size", &d) != sf("%d", want)) c.fail("growcount:" + id, call(to[t], "size", &d) + sf(" instead of %d", want), code); }
				if (ref[0] == '[') { std::string a = call(to[t], "arrs", &d); if (a.find("\"new\"]") == std::string::npos) c.fail("arrgrow:" + id, a, code); }
				if (wr::render(*g) != ref) c.fail("aliased:" + id, "the original changed to " + wr::render(*g), code); } }
		wr_destroyState(w); }
	if (wr::g_live != live0) c.fail("leak:" + id, sf("%ld blocks", wr::g_live - live0), code);
	c.trace(); c.state(hashs(ref)); c.outcome(hex(bytes));
}
static void trees(Ctx& c) { Gen g; g.left = c.thorough() ? 5 : 4; std::string v = g.term(c, c.thorough() ? 3 : 2, false); c.split(); round(c, g.code, v, sf("tree:%016llx", (unsigned long long)hashs(g.code))); }
// every history of insertions and removals, then the round trip, then every continuation
static const char* hk[] = { "1", "3", "\"a\"", "\"b\"", "14", "-5" };
static void histories(Ctx& c) { int n = c.choose(c.thorough() ? 6 : 5), m = c.choose(c.thorough() ? 3 : 2); std::string code = "var h; hash::clear(h); ", tail; std::vector<std::pair<int, int>> ops; for (int i = 0; i < n + m; ++i) { int o = c.choose(9); if (i == 1) c.split(); ops.push_back({ o < 6 ? o : o - 6, o >= 6 }); } if (n + m < 2) c.split();
	std::map<std::string, int> model; int i = 0; for (auto& o : ops) { std::string k = hk[o.second ? o.first * 2 : o.first]; if (i == n) code += "var d = std::deserialize(std::serialize(h)); out(h); out(h._count); out(d); out(d._count); "; std::string t = i < n ? "h" : "d"; code += o.second ? t + "._remove(" + k + "); " : t + "[" + k + sf("] = %d; ", i + 1); ++i; }
	if (!m) code += "var d = std::deserialize(std::serialize(h)); out(h); out(h._count); out(d); out(d._count); "; code += "out(d); out(d._count); ";
	auto rend = [&]() { std::vector<std::string> kv; for (auto& e : model) kv.push_back(e.first + sf(":%d", e.second)); std::sort(kv.begin(), kv.end()); std::string s = "{"; for (size_t q = 0; q < kv.size(); ++q) s += (q ? "," : "") + kv[q]; return s + "}"; }; std::string want; i = 0; auto mid = [&]() { std::string r = rend() + sf(";%d;", (int)model.size()); want += r + r; }; for (auto& o : ops) { if (i == n) mid(); std::string k = hk[o.second ? o.first * 2 : o.first]; if (o.second) model.erase(k); else model[k] = i + 1; ++i; } if (!m) mid(); want += rend() + sf(";%d;", (int)model.size());
	for (auto k : hk) { code += std::string("out(d._exists(") + k + ")); "; want += model.count(k) ? "1;" : "0;"; }
	c.id("hist:" + sf("%016llx", (unsigned long long)hashs(code))); c.note(code); wr::RunOpt o; o.libs = true; std::string got = wr::runScript(code, o); c.transition(); c.trace(); c.state(hashs(want)); if (got != want) c.fail("history", got + " instead of " + want, code); }
// buffers for the decoder
static std::vector<std::string>* bufs;
static void mkbufs() { if (bufs) return; bufs = new std::vector<std::string>; static const char* src[] = { "var v = 5;", "var v = 1.5;", "var v = \"abc\";", "var v[]; v[0] = 1; v[1] = \"x\"; v[2] = 2.5;", "var v; hash::clear(v); v[1] = 2; v.k = \"y\";", "var v[]; var h; hash::clear(h); h.q = { 1, 2 }; v[0] = h; v[1] = { \"a\", { 3 } };", "var v = \"\";", "var v; hash::clear(v); for ( var i = 0; i < 7; ++i ) { v[i * 3] = i; }" };
	for (auto s : src) { WRState* w = mk(); wr::Bytes b; wr::compile(s, b); WRContext* x = wr_run(w, b.p, b.n); char* p; int n; if (wr_serialize(&p, &n, *wr_getGlobalRef(x, "v"))) { bufs->push_back(std::string(p, n)); wr_free(p); } wr_destroyState(w); } }
// returns "refused" or the value
static std::string decode(Ctx& c, W2& W, const std::string& m, const std::string& what) {
	char* in = (char*)malloc(m.size() ? m.size() : 1); memcpy(in, m.data(), m.size()); WRValue d; memset((void*)&d, 0x55, sizeof d); bool ok = wr_deserialize(W.c, d, in, (int)m.size()); free(in); c.transition(); if (!ok) { if (!d.isInt() || d.asInt()) c.fail("dirty", what + ": refused, but the value is left " + (d.isInt() ? "nonzero" : "unusable"), hex(m)); return "refused"; }
	std::string r = wr::render(d, 6); char* p; int n; if (!wr_serialize(&p, &n, d)) { c.fail("again", what + ": decoded to " + r.substr(0, 200) + " which cannot be serialized", hex(m)); return r; } std::string s(p, n); wr_free(p); if (s.size() > m.size()) c.fail("longer", what + ": decoded from fewer bytes than needed: " + r.substr(0, 200), hex(m)); call(W.c, "size", &d); return r; }
static void truncated(Ctx& c) { mkbufs(); int b = c.choose((int)bufs->size()); c.split(); const std::string& s = (*bufs)[b]; for (size_t n = 0; n < s.size(); ++n) { W2 W; c.id(sf("trunc:%d:%d", b, (int)n)); c.note(sf("buffer %d cut to %d", b, (int)n)); std::string r = decode(c, W, s.substr(0, n), "cut"); if (r != "refused") c.fail("truncated", sf("buffer %d cut to %d of %d bytes decodes to ", b, (int)n, (int)s.size()) + r, hex(s)); c.state(hashs(s.substr(0, n))); } c.trace(); }
static void changed(Ctx& c) { mkbufs(); int b = c.choose((int)bufs->size()); const std::string& s = (*bufs)[b]; int i = c.choose((int)s.size()); c.split(); for (int part = 0; part < 16; ++part) { long live0 = wr::g_live; { W2 W; for (int x = part * 16; x < part * 16 + 16; ++x) { std::string m = s; m[i] = (char)x; c.id(sf("byte:%d:%d:%d", b, i, x)); c.note(sf("buffer %d byte %d set to %d: ", b, i, x) + hex(m)); decode(c, W, m, "changed"); c.state(hashs(m)); } } if (wr::g_live != live0) c.fail("leak", sf("%ld blocks", wr::g_live - live0), hex(s)); } c.trace(); }
static void changed2(Ctx& c) { mkbufs(); int b = c.choose((int)bufs->size()); const std::string& s = (*bufs)[b]; int i = c.choose((int)s.size()); c.split(); static const unsigned char al[] = { 0, 1, 2, 3, 4, 5, 0x10, 0x7f, 0x80, 0xa0, 0xc0, 0xe0, 0xff }; W2 W; for (size_t j = i + 1; j < s.size(); ++j) for (int x : al) for (int y : al) { std::string m = s; m[i] = (char)x; m[j] = (char)y; c.id(sf("bytes:%d:%d:%d:%d:%d", b, i, (int)j, x, y)); c.note("changed: " + hex(m)); decode(c, W, m, "changed twice"); c.state(hashs(m)); } c.trace(); }
static void strings(Ctx& c) { static const unsigned char al[] = { 0, 3, 4, 5, 0xa0, 0xe0, 1, 2, 0xff }; int len = c.choose(c.thorough() ? 9 : 8), A = len < 5 ? 9 : len < 7 ? 8 : 5; std::string m; for (int i = 0; i < 3 && i < len; ++i) { m += (char)al[c.choose(A + (len > 6 && i == 1))]; if (i == 1) c.split(); } if (len < 2) c.split(); if (len > 5 && !(m[0] == 3 && (unsigned char)m[1] >= 0xa0)) throw Skip(); long tot = 1; for (int i = 3; i < len; ++i) tot *= A; std::unique_ptr<W2> W; for (long t = 0; t < tot; ++t) { if (t % 256 == 0) { W.reset(); W.reset(new W2); } std::string q = m; long u = t; for (int i = 3; i < len; ++i) { q += (char)al[u % A]; u /= A; } c.id("str:" + hex(q)); c.note("bytes " + hex(q)); decode(c, *W, q, "bytes"); } c.trace(); c.state(hashs(m + sf("%d", len))); }
// sizes around the limits of the format: exact or refused, never cut short
static void sizes(Ctx& c) { static const int n[] = { 0, 1, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072 }; int k = c.choose(3), q = c.choose(13); c.split(); int z = n[q]; if (k == 2 && z > 49000) throw Skip(); std::string code = k == 0 ? sf("var v[]; if ( %d ) { v[%d] = 7; } ", z, z ? z - 1 : 0) : k == 1 ? std::string("var v = \"\"; var u = \"0123456789abcdef\"; ") + sf("while ( v._count + 16 <= %d ) { v = v + u; } while ( v._count < %d ) { v = v + \"z\"; } ", z, z) : sf("var v; hash::clear(v); for ( var i = 0; i < %d; ++i ) { v[i] = i; } ", z);
	code += "out(v._count); var s = std::serialize(v); var d = std::deserialize(s); out(d._count); d = std::deserialize(std::serialize({ v, 1 })); out(d[0]._count, d[1]); " + std::string(z && k != 1 ? sf("d = std::deserialize(s); out(d[%d]);", z - 1) : ""); c.id(sf("size:%d:%d", k, z)); c.note(code); wr::RunOpt o; o.libs = true; std::string got = wr::runScript(code, o); c.transition(); c.trace();
	std::string full = sf("%d;%d;%d 1;", z, z, z), none = sf("%d;0;0 0;", z); std::string last = z && k != 1 ? sf("%d;", k == 2 ? z - 1 : 7) : ""; if (got != full + last && !(z > 65535 && got.compare(0, none.size(), none) == 0)) c.fail("size", sf("size %d: ", z) + got.substr(0, 300) + " instead of " + full + last, code); c.state(hashs(got)); }
MC_MAIN({ "trees", trees, false }, { "histories", histories, false }, { "truncated", truncated, false }, { "changed", changed, false }, { "changed2", changed2, false }, { "strings", strings, false }, { "sizes", sizes, false })
