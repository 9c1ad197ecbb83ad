// P19: file and console input/output. Every sequence of operations up to a depth is run by a script on real files in a scratch
// directory of its own and compared, operation by operation, with an abstract file system.
#include "wr.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace mc;
typedef std::string S;
static S q(const S& s) { return wr::quote(s.data(), s.size()); }
// ---- scratch: names given to the library are always relative to it
static S g_dir; static pid_t g_pid;
static void clean() { DIR* d = opendir(g_dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) { S n = e->d_name; if (n == "." || n == "..") continue; S p = g_dir + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); } closedir(d); }
struct Scratch { int cwd; Scratch() { char t[] = "/tmp/p19-XXXXXX"; if (!mkdtemp(t)) abort(); g_dir = t; cwd = open(".", O_RDONLY | O_DIRECTORY); if (chdir(t)) abort(); } ~Scratch() { clean(); if (fchdir(cwd)) {} close(cwd); rmdir(g_dir.c_str()); } };
static int openFds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
static S slurp(const S& n) { int f = open(n.c_str(), O_RDONLY); if (f < 0) return "(none)"; S s; char b[4096]; long k; while ((k = read(f, b, sizeof b)) > 0) s.append(b, k); close(f); return s; }
// ---- the abstract file system
struct Fd { bool open = false, rw = false, app = false; std::shared_ptr<S> f; long pos = 0; };
struct Model { std::map<S, std::shared_ptr<S>> files; Fd fd[2];
	S read(Fd& d, int n) { if (!d.open || d.pos >= (long)d.f->size()) return ""; S r = d.f->substr(d.pos, n); d.pos += r.size(); return r; }
	int write(Fd& d, const S& x) { if (!d.open || !d.rw) return -1; if (d.app) d.pos = d.f->size(); if (x.empty()) return 0; if ((long)d.f->size() < d.pos + (long)x.size()) d.f->resize(d.pos + x.size(), '\0'); d.f->replace(d.pos, x.size(), x); d.pos += x.size(); return (int)x.size(); }
	int seek(Fd& d, int off, int wh) { if (!d.open) return -1; long b = wh == 0 ? 0 : wh == 1 ? d.pos : (long)d.f->size(); if (b + off < 0) return -1; return (int)(d.pos = b + off); } };
static const S D1("hello", 5), D2("a\0b", 3), D3("XY");
// one operation: script text and expected output ("" = none)
static int NOP(bool th) { return th ? 34 : 30; }
static void step(Model& m, int o, S& code, S& want) {
	auto file = [&](const char* n) { return m.files.count(n) ? m.files[n] : std::shared_ptr<S>(); };
	auto opn = [&](int i, const char* n, const char* fl, bool rw, bool cr, bool ex, bool tr, bool ap) { if (m.fd[i].open) { code += sf("io::close(f%d); ", i); m.fd[i] = Fd(); } code += sf("f%d = io::open(\"%s\", %s); out(f%d >= 0); ", i, n, fl, i); auto f = file(n); bool ok = f ? !(ex && cr) : cr; want += ok ? "1;" : "0;"; if (ok) { if (!f) f = m.files[n] = std::make_shared<S>(); if (tr) f->clear(); m.fd[i].open = true; m.fd[i].rw = rw; m.fd[i].app = ap; m.fd[i].f = f; m.fd[i].pos = 0; } };
	auto wf = [&](const char* n, const char* lit, const S& d) { code += sf("r = io::writeFile(\"%s\", ", n) + lit + "); out(r != 0); "; want += d.empty() ? "?;" : "1;"; auto f = file(n); if (!f) f = m.files[n] = std::make_shared<S>(); *f = d; };
	auto wr_ = [&](int i, const char* lit, const S& d) { code += sf("out(io::write(f%d, ", i) + lit + ")); "; want += sf("%d;", m.write(m.fd[i], d)); };
	auto rd = [&](int i, int n) { code += sf("out(io::read(f%d, %d)); ", i, n); want += q(m.read(m.fd[i], n)) + ";"; };
	auto sk = [&](int i, int off, int wh) { static const char* w[] = { "io::SEEK_SET", "io::SEEK_CUR", "io::SEEK_END" }; code += sf("out(io::seek(f%d, %d, %s)); ", i, off, w[wh]); want += sf("%d;", m.seek(m.fd[i], off, wh)); };
	auto rf = [&](const char* n) { code += sf("out(io::readFile(\"%s\")); ", n); auto f = file(n); want += (f ? q(*f) : S("0")) + ";"; };
	auto del = [&](const char* n) { code += sf("io::deleteFile(\"%s\"); ", n); m.files.erase(n); };
	switch (o) {
	case 0: wf("a", "\"hello\"", D1); break; case 1: wf("a", "\"a\\000b\"", D2); break; case 2: wf("b", "\"XY\"", D3); break; case 3: wf("a", "\"\"", ""); break;
	case 4: rf("a"); break; case 5: rf("b"); break; case 6: del("a"); break; case 7: del("b"); break;
	case 8: opn(0, "a", "io::O_RDONLY", 0, 0, 0, 0, 0); break; case 9: opn(0, "a", "io::O_RDWR", 1, 0, 0, 0, 0); break; case 10: opn(0, "a", "io::O_RDWR | io::O_CREAT", 1, 1, 0, 0, 0); break; case 11: opn(0, "a", "io::O_RDWR | io::O_CREAT | io::O_EXCL", 1, 1, 1, 0, 0); break; case 12: opn(0, "a", "io::O_RDWR | io::O_TRUNC", 1, 0, 0, 1, 0); break; case 13: opn(0, "a", "io::O_RDWR | io::O_CREAT | io::O_APPEND", 1, 1, 0, 0, 1); break; case 14: opn(1, "a", "io::O_RDWR | io::O_CREAT", 1, 1, 0, 0, 0); break; case 15: opn(1, "b", "io::O_RDONLY", 0, 0, 0, 0, 0); break;
	case 16: rd(0, 3); break; case 17: rd(0, 100); break; case 18: rd(1, 2); break; case 19: wr_(0, "\"XY\"", D3); break; case 20: wr_(0, "\"a\\000b\"", D2); break; case 21: wr_(0, "\"hello\", 2", "he"); break; case 22: wr_(1, "\"hello\", 99", "hello"); break;
	case 23: sk(0, 0, 0); break; case 24: sk(0, 2, 0); break; case 25: sk(0, -1, 1); break; case 26: sk(0, 0, 2); break; case 27: sk(0, 3, 2); break;
	case 28: case 29: { int i = o - 28; code += sf("out(io::close(f%d)); ", i); want += m.fd[i].open ? "0;" : "-1;"; if (m.fd[i].open) { code += sf("f%d = -1; ", i); m.fd[i] = Fd(); } break; }
	case 30: code += "out(io::fsync(f0)); "; want += m.fd[0].open ? "0;" : "-1;"; break; case 31: rd(1, 1); break; case 32: sk(1, 1, 0); break; case 33: wr_(1, "\"\"", ""); break; } }
static bool match(const S& got, const S& want) { size_t i = 0, j = 0; for (; i < want.size() && j < got.size(); ++i, ++j) if (want[i] != got[j] && want[i] != '?') return false; return i == want.size() && j == got.size(); }
static void finish(Ctx& c, Model& m, S code, S want, const S& id) { for (int i = 0; i < 2; ++i) code += sf("if ( f%d >= 0 ) { io::close(f%d); } ", i, i); S all = "var f0 = -1; var f1 = -1; var r; " + code; c.id(id); c.note(all); Scratch sc; int fds = openFds(); long live = wr::g_live; wr::RunOpt o; o.libs = true; o.gcHint = 0; S got = wr::runScript(all, o); c.transition(); c.trace(); if (!match(got, want)) c.fail("io:" + id, got + " instead of " + want, all); std::set<S> names; DIR* d = opendir("."); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.insert(e->d_name); closedir(d); for (auto& f : m.files) { if (slurp(f.first) != *f.second) c.fail("file:" + id, f.first + " holds " + q(slurp(f.first)) + " instead of " + q(*f.second), all); names.erase(f.first); } for (auto& n : names) c.fail("stray:" + id, "file " + n + " should not exist", all); if (openFds() != fds) c.fail("descriptor:" + id, sf("%d descriptors left open", openFds() - fds), all); if (wr::g_live != live) c.fail("leak:" + id, sf("%ld blocks", wr::g_live - live), all); c.state(hashs(want)); c.outcome(got); }
static void sequences(Ctx& c) { int n = 3; Model m; S code, want, id; int pre = c.choose(c.thorough() ? 4 : 3); // starting states
	if (pre == 1) step(m, 0, code, want); if (pre == 2) { step(m, 0, code, want); step(m, 9, code, want); } if (pre == 3) { step(m, 1, code, want); step(m, 13, code, want); step(m, 14, code, want); } id = sf("seq%d", pre); for (int i = 0; i < n; ++i) { int o = c.choose(NOP(c.thorough())); if (i == 1) c.split(); id += sf(":%d", o); step(m, o, code, want); } finish(c, m, code, want, id); }
static void deep(Ctx& c) { // longer histories over the operations on one open file
	static const int ops[] = { 16, 17, 19, 21, 24, 25, 26, 27, 13, 6, 4 }; Model m; S code, want, id = "deep"; step(m, 0, code, want); step(m, 10, code, want); int n = c.thorough() ? 5 : 4; for (int i = 0; i < n; ++i) { int o = c.choose(11); if (i == 1) c.split(); id += sf(":%d", ops[o]); step(m, ops[o], code, want); } finish(c, m, code, want, id); }
// contents of every size class, names of every kind of value, and names that are no files
static void contents(Ctx& c) { static const int sz[] = { 0, 1, 2, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70001 }; int z = c.choose(12), how = c.choose(4); c.split(); Scratch sc; int fds = openFds(); S s; for (int i = 0; i < sz[z]; ++i) s += (char)(i * 7 + i / 256); static S data; data = s; wr::RunOpt o; o.libs = true; o.gcHint = 0; o.setup = [](WRState* w) { wr_registerFunction(w, "data", [](WRContext* c, const WRValue*, const int, WRValue& r, void*) { static const S e; if (data.empty()) wr_makeString(c, &r, "", 0); else wr_makeString(c, &r, data.data(), (int)data.size()); }); };
	static const char* prog[] = { "var s = data(); io::writeFile(\"f\", s); var t = io::readFile(\"f\"); out(t._count, t == s); out(s == data());", "var s = data(); var f = io::open(\"f\", io::O_RDWR | io::O_CREAT); out(io::write(f, s)); io::seek(f, 0, io::SEEK_SET); var t = io::read(f, 100000); out(t._count, t == s); io::close(f);", "var s = data(); var a[]; a[0] = \"f\"; a[1] = s; io::writeFile(a[0], a[1]); var h = { \"n\": a[0] }; var t = io::readFile(h.n); out(t._count, t == s); io::deleteFile(a[0]); out(io::readFile(a[0]) == 0); io::writeFile(\"f\", s);", "var s = data(); io::writeFile(12, s); var t = io::readFile(12); out(t._count, t == s); io::deleteFile(12); out(io::readFile(\"12\")); io::writeFile(\"f\", s);" }; int n = sz[z]; S want = how == 0 ? sf("%d 1;1;", n) : how == 1 ? sf("%d;%d 1;", n, n) : how == 2 ? sf("%d 1;1;", n) : sf("%d 1;0;", n); c.id(sf("contents:%d:%d", n, how)); c.note(prog[how]); S got = wr::runScript(prog[how], o); c.transition(); c.trace(); c.state(hashs(want)); if (got != want) c.fail("contents", sf("%d bytes: ", n) + got.substr(0, 200) + " instead of " + want, prog[how]); if (slurp("f") != s) c.fail("written", sf("the file of %d bytes is not what was written", n), prog[how]); if (openFds() != fds) c.fail("descriptor", sf("%d descriptors left open", openFds() - fds), prog[how]); }
static void odd(Ctx& c) { static const char* prog[] = { "out(io::readFile(\"dir\")); out(1);", "out(io::readFile(\"\")); out(1);", "out(io::readFile(\"dir/none\")); out(1);", "io::writeFile(\"dir\", \"x\"); out(0); out(1);", "io::writeFile(\"dir/none/x\", \"x\"); out(0); out(1);", "io::deleteFile(\"dir\"); io::deleteFile(\"\"); io::deleteFile(\"none\"); out(0); out(1);", "out(io::open(\"dir/none/x\", io::O_RDWR | io::O_CREAT)); out(1);", "out(io::readFile({ 1, 2 })); out(1);", "out(io::writeFile(\"x\", 5)); out(1);", "out(io::writeFile(\"x\", { 1, 2 })); out(1);", "out(io::readFile()); out(1);", "out(io::read(-1, 5)); out(1);", "out(io::read(99, 5)); out(1);", "out(io::read(99, -5)); out(1);", "out(io::read(99, 0)); out(1);", "out(io::write(99, \"x\")); out(1);", "out(io::write(99, { 1 })); out(1);", "out(io::write(99, 5)); out(1);", "out(io::seek(99, 0)); out(1);", "out(io::close(99)); out(1);", "out(io::fsync(99)); out(1);", "out(io::open(5.5)); out(1);", "out(io::open({ 1 })); out(1);", "io::deleteFile({ 1 }); io::deleteFile(); io::deleteFile(1, 2); out(0); out(1);", "io::open(); io::close(); io::read(); io::write(); io::seek(); io::fsync(); out(0); out(1);", "var f = io::open(\"x\", io::O_RDWR | io::O_CREAT); out(io::write(f, \"abc\", -1) >= 0); io::close(f); out(1);" }; int k = c.choose(26); c.split(); for (int gc = 0; gc < 2; ++gc) { Scratch sc; mkdir("dir", 0755); int fds = openFds(); long live = wr::g_live; wr::RunOpt o; o.libs = true; o.gcHint = gc ? 0 : -1; c.id(sf("odd:%d", k)); c.note(prog[k]); S got = wr::runScript(prog[k], o); c.transition(); size_t p = got.rfind("1;"); if (p == S::npos || p + 2 != got.size()) c.fail("odd", S(prog[k]) + " gives " + got, prog[k]); struct stat st; if (stat("dir", &st)) c.fail("dir", S(prog[k]) + " removed a directory", prog[k]); int left = openFds() - fds; if (k != 21 && k != 22 && left) c.fail("descriptor", S(prog[k]) + sf(" leaves %d descriptors open", left), prog[k]); for (int i = 3; i < 256 && left > 0; ++i) { char b[64], t[512]; snprintf(b, sizeof b, "/proc/self/fd/%d", i); long n = readlink(b, t, 511); if (n > 0 && S(t, n).compare(0, g_dir.size(), g_dir) == 0) close(i); } if (wr::g_live != live) c.fail("leak", sf("%ld blocks", wr::g_live - live), prog[k]); } c.trace(); c.state(k); }
static void modes(Ctx& c) { static const int md[] = { 0600, 0644, 0666, 0400, 0755 }; int k = c.choose(6); c.split(); Scratch sc; mode_t u = umask(022); S code = k == 5 ? S("var f = io::open(\"m\", io::O_RDWR | io::O_CREAT); out(f >= 0); io::close(f);") : sf("var f = io::open(\"m\", io::O_RDWR | io::O_CREAT, 0%o); out(f >= 0); io::close(f);", md[k]); if (k < 5) code = sf("var f = io::open(\"m\", io::O_RDWR | io::O_CREAT, %d); out(f >= 0); io::close(f);", md[k]); c.id(sf("mode:%d", k)); c.note(code); wr::RunOpt o; o.libs = true; S got = wr::runScript(code, o); umask(u); struct stat st; int w = (k == 5 ? 0666 : md[k]) & ~022; c.transition(); c.trace(); c.state(k); if (got != "1;" || stat("m", &st) || (int)(st.st_mode & 0777) != w) c.fail("mode", code + sf(" makes a file of mode %o instead of %o", (int)(st.st_mode & 0777), w), code); }
// lines of every length around the internal limit, all line ends: nothing is lost or invented
static void lines(Ctx& c) { static const int len[] = { 0, 1, 5, 254, 255, 256, 257, 258, 300, 511, 512, 513, 800 }; int a = c.choose(13), b = c.choose(13), e = c.choose(3); c.split(); Scratch sc; auto mk = [](int n, char ch) { S s; for (int i = 0; i < n; ++i) s += (char)(ch + i % 26); return s; }; S l1 = mk(len[a], 'a'), l2 = mk(len[b], 'A'), text = l1 + "\n" + l2 + (e == 0 ? "" : e == 1 ? "\n" : "\nlast"); int f = open("in", O_RDWR | O_CREAT, 0600); if (write(f, text.data(), text.size()) < 0) abort(); lseek(f, 0, SEEK_SET); fflush(stdin); int save = dup(0); dup2(f, 0); close(f); clearerr(stdin); S code = "for ( var i = 0; i < 14; ++i ) { out(io::getline()); }"; c.id(sf("lines:%d:%d:%d", len[a], len[b], e)); c.note(code + sf(" with lines of %d and %d characters", len[a], len[b])); wr::RunOpt o; o.libs = true; S got = wr::runScript(code, o); c.transition(); c.trace(); while (fgetc(stdin) != EOF); clearerr(stdin); dup2(save, 0); close(save); S joined; for (size_t i = 0; i < got.size();) { size_t z = got.find(';', i); if (z == S::npos) break; S v = got.substr(i, z - i); if (v.size() >= 2 && v[0] == '"') joined += v.substr(1, v.size() - 2); else { c.fail("line", "getline gives " + v); break; } i = z + 1; } S want = l1 + l2 + (e == 2 ? "last" : ""); if (joined != want) c.fail("lines", sf("lines of %d and %d characters come back as %d characters instead of %d", len[a], len[b], (int)joined.size(), (int)want.size()), got.substr(0, 600)); if (len[a] < 256 && len[b] < 256) { S w = q(l1) + ";" + q(l2) + ";" + (e == 2 ? "\"last\";" : "\"\";"); if (got.compare(0, w.size(), w)) c.fail("line", got.substr(0, 300) + " instead of " + w); } c.state(hashs(text)); }
// what printf writes is what format returns
static void print(Ctx& c) { static const char* f[] = { "\"plain\"", "\"%d|%5d|%s\", 5, -42, \"str\"", "\"\"", "\"%s\", \"a\\000b\"", "\"%%\"", "\"%s%s\", big(), big()", "\"%d\\n\", 7" }; int k = c.choose(7), rep = 1 + c.choose(3); c.split(); Scratch sc; fflush(stdout); int fd = open("outp", O_RDWR | O_CREAT, 0600), save = dup(1); S code = S("function big() { var s = \"\"; for ( var i = 0; i < 30; ++i ) { s = s + \"0123456789\"; } return s; } var i; for ( i = 0; i < ") + sf("%d", rep) + "; ++i ) { out(str::printf(" + f[k] + ")); } out(str::format(" + f[k] + "));"; c.id(sf("print:%d:%d", k, rep)); c.note(code); dup2(fd, 1); wr::RunOpt o; o.libs = true; S got = wr::runScript(code, o); fflush(stdout); dup2(save, 1); close(save); close(fd); S text = slurp("outp"), one; c.transition(); c.trace(); c.state(hashs(code)); one = text.substr(0, text.size() / rep); S want, all; for (int i = 0; i < rep; ++i) { want += sf("%d;", (int)one.size()); all += one; } want += q(one) + ";"; if (got != want || all != text) c.fail("print", "printed " + q(text).substr(0, 200) + ", script " + got.substr(0, 300), code); }
// a raw array of the host, of every size, written to a file
static WRValue g_box;
static void raw(Ctx& c) { int n = 1 + c.choose(40), cnt = c.choose(7), how = c.choose(3); c.split(); int k = cnt == 0 ? -1 : cnt == 1 ? 0 : cnt == 2 ? 1 : cnt == 3 ? n - 1 : cnt == 4 ? n : cnt == 5 ? n + 1 : 1000; Scratch sc; int fds = openFds(); long live = wr::g_live; char* arr = (char*)malloc(n); for (int i = 0; i < n; ++i) arr[i] = (char)(i * 11 + 200); wr_makeContainer(&g_box); wr_addArrayToContainer(&g_box, "raw", arr, n); wr::RunOpt o; o.libs = true; o.gcHint = 0; o.setup = [](WRState* w) { wr_registerFunction(w, "box", [](WRContext*, const WRValue*, const int, WRValue& r, void*) { r = g_box; }); }; S ar = how == 0 ? "b.raw" : how == 1 ? "r" : "p", call = "io::write(f, " + ar + (k < 0 ? S() : sf(", %d", k)) + ")"; S code = "function w(f, p) { return io::write(f, p" + (k < 0 ? S() : sf(", %d", k)) + "); }\nvar b = box(); var r = b.raw; var f = io::open(\"f\", io::O_RDWR | io::O_CREAT); out(" + (how == 2 ? S("w(f, b.raw)") : call) + "); io::close(f); b = 0;\n"; c.id(sf("raw:%d:%d:%d", n, k, how)); c.note(code); S got = wr::runScript(code, o); int m = k < 0 || k > n ? n : k; c.transition(); c.trace(); if (got != sf("%d;", m)) c.fail("raw", code + " gives " + got + sf(" instead of %d", m), code); if (slurp("f") != S(arr, m)) c.fail("rawfile", code + ": the file does not hold the array", code); wr_destroyContainer(&g_box); free(arr); if (openFds() != fds) c.fail("descriptor", "left open", code); if (wr::g_live != live) c.fail("rawleak", sf("%ld blocks", wr::g_live - live), code); c.state(hashs(code)); c.outcome(got); }
MC_MAIN({ "sequences", sequences, false }, { "deep", deep, false }, { "contents", contents, false }, { "odd", odd, false }, { "modes", modes, false }, { "lines", lines, false }, { "print", print, false }, { "raw", raw, false })
