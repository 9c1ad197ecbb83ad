// Reference semantics of wrench scalar values (C-like 32-bit ints, IEEE single floats).
#pragma once
#include "wr.h"
namespace ref {
using mc::sf;
struct V { bool fl; int32_t i; float f; };
inline V I(int32_t i) { V v; v.fl = false; v.i = i; v.f = 0; return v; }
inline V F(float f) { V v; v.fl = true; v.i = 0; v.f = f; return v; }
inline float toF(const V& v) { return v.fl ? v.f : (float)v.i; }
inline bool truth(const V& v) { return v.fl ? v.f != 0 : v.i != 0; }
inline std::string show(const V& v) { return v.fl ? wr::fbits(v.f) : sf("%d", v.i); }
// source text of the value as a literal
inline std::string lit(const V& v) {
	if (!v.fl) return sf("%d", v.i);
	char b[64]; snprintf(b, sizeof b, "%.9f", fabs(v.f)); // wrench has no exponent syntax
	std::string s = b; while (s.size() > 3 && s.back() == '0' && s[s.size() - 2] != '.') s.pop_back();
	return (std::signbit(v.f) ? "-" : "") + s;
}
enum Op { ADD, SUB, MUL, DIV, MOD, BOR, BAND, BXOR, SHL, SHR, LT, GT, LE, GE, EQ, NE, LAND, LOR, NOPS };
inline const char* opText[] = { "+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||" };
inline int opPrec[] =         {  6,   6,   5,   5,   5,   13,  11,  12,  7,    7,    9,   9,   9,    9,    10,   10,   14,   15 };
inline bool intOnly(int op) { return op == MOD || op == BOR || op == BAND || op == BXOR || op == SHL || op == SHR; }
inline bool isCompare(int op) { return op >= LT && op <= LOR; }
// is (a op b) inside the specified domain?
inline bool inDomain(int op, const V& a, const V& b) {
	if (intOnly(op) && (a.fl || b.fl)) return false;
	if ((op == SHL || op == SHR) && (b.i < 0 || b.i > 31)) return false;
	return true;
}
inline V apply(int op, const V& a, const V& b) {
	bool fl = a.fl || b.fl; float x = toF(a), y = toF(b);
	uint32_t ua = (uint32_t)a.i, ub = (uint32_t)b.i;
	switch (op) {
		case ADD: return fl ? F(x + y) : I((int32_t)(ua + ub));
		case SUB: return fl ? F(x - y) : I((int32_t)(ua - ub));
		case MUL: return fl ? F(x * y) : I((int32_t)(ua * ub));
		case DIV: if (fl) return F(y == 0 ? 0.0f : x / y); if (b.i == 0) return I(0); if (b.i == -1) return I((int32_t)(0u - ua)); return I(a.i / b.i);
		case MOD: if (b.i == 0 || b.i == -1) return I(0); return I(a.i % b.i);
		case BOR: return I(a.i | b.i); case BAND: return I(a.i & b.i); case BXOR: return I(a.i ^ b.i);
		case SHL: return I((int32_t)(ua << b.i)); case SHR: return I(a.i >> b.i);
		case LT: return I(fl ? x < y : a.i < b.i); case GT: return I(fl ? x > y : a.i > b.i);
		case LE: return I(fl ? x <= y : a.i <= b.i); case GE: return I(fl ? x >= y : a.i >= b.i);
		case EQ: return I(fl ? x == y : a.i == b.i); case NE: return I(fl ? x != y : a.i != b.i);
		case LAND: return I(truth(a) && truth(b)); case LOR: return I(truth(a) || truth(b));
	}
	return I(0);
}
// NaN, infinities and negative zero are outside the specified domain
inline bool resultOk(const V& v) { return !v.fl || (v.f == v.f && !std::isinf(v.f) && !(v.f == 0 && std::signbit(v.f))); }
} // namespace ref
