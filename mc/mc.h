// Stateless explicit-choice model checker for real code.
//
// A scenario is a function of a Ctx; every nondeterministic decision goes through Ctx::choose(n).
// The engine performs a depth-first walk of the complete choice tree (no sampling), spread over
// forked worker processes: Ctx::split() marks the depth at which sub-trees are dealt to workers.
// A worker that dies (signal, sanitizer report) or stalls is a violation carrying the exact choice
// path; the walk then resumes behind that path.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <ctype.h>
#include <stdarg.h>
#include <limits.h>
#include <assert.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <sstream>
#include <memory>
#include <array>

namespace mc {

typedef uint64_t u64;
inline u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline u64 hashs(const std::string& s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string sf(const char* f, ...) { char b[8192]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n >= (int)sizeof b) n = sizeof b - 1; return std::string(b, n < 0 ? 0 : n); }

enum { MAXPATH = 4096, MAXTXT = 3000 };
struct Shm {            // one per worker, survives the worker's death
	volatile u64 progress; // bumped at every execution
	volatile u64 splitIdx;
	volatile int pathLen;
	volatile int val[MAXPATH];
	volatile int arity[MAXPATH];
	volatile int splitDepth;
	volatile u64 evals, transitions, traces;
	volatile u64 digest[256];
	volatile int scenario;
	volatile int slow;   // the execution may take long: more patience before it counts as a hang
	volatile int stop;   // set by the parent when the time is up
	char note[MAXTXT];   // what was running
	char key[256];       // optional identification of the case for crash reports
};

struct Skip {};
struct Fail {};

struct Violation { std::string scenario, path, key, msg, detail; u64 count = 1; };

struct Ctx {
	Shm* shm = 0;
	std::vector<int> val, arity;
	size_t pos = 0;
	int worker = 0, workers = 1;
	bool verbose = false, replay = false;
	size_t changed = 0;       // first position that differs from the previous execution
	bool splitDone = false;
	std::string scenario, tier;
	std::string outcomeText;
	bool hadOutcome = false;
	bool failed = false;
	std::unordered_set<u64> outcomes, statesSet;
	std::vector<Violation> viols;
	std::map<std::string, size_t> violIdx;
	std::vector<std::string> samples;
	FILE* dump = 0;
	bool thorough() const { return tier == "thorough"; }

	int choose(int n) {
		if (n <= 0) n = 1;
		if (pos < val.size()) {
			if (arity[pos] != n) {
				if (arity[pos] == 0) arity[pos] = n; // replay path: arity unknown
				else { fprintf(stderr, "mc: nondeterministic scenario %s at %zu: %d vs %d\n", scenario.c_str(), pos, arity[pos], n); _exit(77); }
			}
			if (val[pos] >= n) { fprintf(stderr, "mc: bad replay choice\n"); _exit(78); }
		} else {
			val.push_back(0); arity.push_back(n);
		}
		if (pos < MAXPATH) { shm->val[pos] = val[pos]; shm->arity[pos] = n; shm->pathLen = (int)pos + 1; }
		return val[pos++];
	}
	bool flag() { return choose(2) == 1; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
	template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[choose((int)N)]; }

	// the sub-tree below this point belongs to exactly one worker
	void split() {
		if (splitDone) return;
		splitDone = true;
		if (replay) return;
		if (changed < pos || shm->splitDepth < 0) { shm->splitIdx = shm->splitIdx + 1; }
		shm->splitDepth = (int)pos;
		if ((int)(shm->splitIdx % workers) != worker) throw Skip();
		shm->progress = shm->progress + 1;
	}
	void slow() { shm->slow = 1; }
	void note(const std::string& s) {
		size_t n = s.size() < MAXTXT - 1 ? s.size() : MAXTXT - 1;
		memcpy(shm->note, s.data(), n); shm->note[n] = 0;
		if (verbose) printf("--- note:\n%s\n---\n", s.c_str());
	}
	void id(const std::string& s) { size_t n = s.size() < 255 ? s.size() : 255; memcpy(shm->key, s.data(), n); shm->key[n] = 0; }
	void log(const std::string& s) { if (verbose) { printf("%s\n", s.c_str()); fflush(stdout); } }
	void state(u64 h) { if (statesSet.size() < 4000000) statesSet.insert(h); }
	void state(const std::string& s) { state(hashs(s)); }
	void transition(u64 n = 1) { shm->transitions = shm->transitions + n; }
	void trace(u64 n = 1) { shm->traces = shm->traces + n; }
	void outcome(const std::string& s) { outcomeText += s; outcomeText += '\x1f'; hadOutcome = true; }
	void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
	std::string path() const { std::string p; for (size_t i = 0; i < pos && i < val.size(); ++i) { if (i) p += ","; p += std::to_string(val[i]); } return p; }
	void fail(const std::string& key, const std::string& msg, const std::string& detail = "") {
		failed = true;
		if (verbose) printf("FAIL key=%s\n  %s\n%s\n", key.c_str(), msg.c_str(), detail.c_str());
		auto it = violIdx.find(key);
		if (it != violIdx.end()) { viols[it->second].count++; return; }
		if (viols.size() >= 300) return;
		Violation v; v.scenario = scenario; v.path = path(); v.key = key; v.msg = msg; v.detail = detail.empty() ? std::string(shm->note) : detail;
		violIdx[key] = viols.size(); viols.push_back(v);
	}
	// returns true when equal
	bool expect(const std::string& key, const std::string& got, const std::string& want) {
		if (got == want) return true;
		fail(key, "got <" + got.substr(0, 700) + "> want <" + want.substr(0, 700) + ">");
		return false;
	}
};

typedef void (*Fn)(Ctx&);
struct Scenario { const char* name; Fn fn; bool thoroughOnly; };

inline bool advance(std::vector<int>& val, std::vector<int>& ar, size_t& changed) {
	while (!val.empty()) {
		if (val.back() + 1 < ar.back()) { val.back()++; changed = val.size() - 1; return true; }
		val.pop_back(); ar.pop_back();
	}
	return false;
}

inline std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Engine {
	std::vector<Scenario> scen;
	std::string tier = "quick", out, scratch = ".", dumpScen;
	std::string dumpFile;
	int jobs = 8;
	double hangSec = 40;
	// processor time of a worker: a machine that is busy with something else is not a hang
	static double cpuOf(pid_t p) { clockid_t id; timespec ts; if (clock_getcpuclockid(p, &id) || clock_gettime(id, &ts)) return 0; return ts.tv_sec + ts.tv_nsec * 1e-9; }
	bool stuck(double wall, double cpu) const { return cpu > hangSec || cpu < wall * 0.01 || wall > hangSec * 8; }
	int maxRestarts = 25;
	void (*perWorkerInit)() = 0;

	static void wr(FILE* f, const std::string& s) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
	static bool rd(FILE* f, std::string& s) { uint32_t n; if (fread(&n, 4, 1, f) != 1) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }

	// runs scenario si in this (worker) process; continues behind the path in shm when resume
	void work(int si, int w, Shm* shm, bool resume, const std::string& resFile) {
		Ctx c; c.shm = shm; c.worker = w; c.workers = jobs; c.scenario = scen[si].name; c.tier = tier;
		if (!dumpFile.empty() && dumpScen == scen[si].name) c.dump = fopen((dumpFile + "." + std::to_string(w)).c_str(), "a");
		shm->scenario = si;
		bool go = true; size_t flushed = 0;
		if (resume) {
			for (int i = 0; i < shm->pathLen; ++i) { c.val.push_back((int)shm->val[i]); c.arity.push_back((int)shm->arity[i]); }
			go = advance(c.val, c.arity, c.changed);
			if (shm->splitDepth >= 0 && c.changed >= (size_t)shm->splitDepth) { }
		} else { shm->splitIdx = 0; shm->splitDepth = -1; shm->pathLen = 0; }
		while (go) {
			c.pos = 0; c.splitDone = false; c.outcomeText.clear(); c.hadOutcome = false; c.failed = false;
			bool skipped = false;
			shm->pathLen = 0; shm->slow = 0;
			if (shm->stop) break;
			try { scen[si].fn(c); }
			catch (Skip&) { skipped = true; }
			catch (Fail&) { }
			if (!skipped) {
				shm->progress = shm->progress + 1;
				shm->evals = shm->evals + 1;
				if (c.hadOutcome) {
					u64 h = hashs(c.outcomeText);
					if (c.outcomes.size() < 4000000) c.outcomes.insert(h);
					shm->digest[si] = shm->digest[si] + mix(h ^ mix(hashs(c.path())));
					if (c.dump) { fprintf(c.dump, "%s\t%s\n", c.path().c_str(), jesc(c.outcomeText).c_str()); }
				}
				if (c.samples.empty() && c.hadOutcome) { std::string n(shm->note); c.samples.push_back("path=" + c.path() + " " + n.substr(0, 300) + " => " + c.outcomeText.substr(0, 160)); }
			}
			if (c.viols.size() > flushed) flush(c, flushed, resFile, false);
			c.val.resize(c.pos); c.arity.resize(c.pos);
			go = advance(c.val, c.arity, c.changed);
		}
		if (c.dump) fclose(c.dump);
		flush(c, flushed, resFile, true);
	}
	// what was found so far: violations at once (a later crash of this worker must not lose them), the sets at the end
	void flush(Ctx& c, size_t& flushed, const std::string& resFile, bool all) {
		FILE* f = fopen(resFile.c_str(), "ab");
		size_t from = all ? 0 : flushed;
		uint32_t nv = c.viols.size() - from; fwrite(&nv, 4, 1, f); flushed = c.viols.size();
		for (size_t vi = from; vi < c.viols.size(); ++vi) { auto& v = c.viols[vi]; wr(f, v.scenario); wr(f, v.path); wr(f, v.key); wr(f, v.msg); wr(f, v.detail); fwrite(&v.count, 8, 1, f); }
		auto wset = [&](std::unordered_set<u64>& s) { uint32_t n = s.size(); fwrite(&n, 4, 1, f); for (u64 h : s) fwrite(&h, 8, 1, f); };
		std::unordered_set<u64> none; wset(all ? c.outcomes : none); wset(all ? c.statesSet : none);
		uint32_t ns = all ? c.samples.size() : 0; fwrite(&ns, 4, 1, f); if (all) for (auto& s : c.samples) wr(f, s);
		fclose(f);
	}

	int main(int argc, char** argv) {
		std::string rs, rp; bool rep = false; std::string onlyScen;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") tier = nx();
			else if (a == "--out") out = nx();
			else if (a == "--scratch") scratch = nx();
			else if (a == "--jobs") jobs = atoi(nx().c_str());
			else if (a == "--replay-scenario") { rs = nx(); rep = true; }
			else if (a == "--replay-path") rp = nx();
			else if (a == "--dump") dumpFile = nx();
			else if (a == "--dump-scenario") dumpScen = nx();
			else if (a == "--only") onlyScen = nx();
		}
		if (getenv("MC_SCEN")) onlyScen = getenv("MC_SCEN");
		if (getenv("MC_HANG")) hangSec = atof(getenv("MC_HANG"));
		if (rep) {
			for (size_t si = 0; si < scen.size(); ++si) if (rs == scen[si].name) {
				Ctx c; Shm* shm = (Shm*)calloc(1, sizeof(Shm)); c.shm = shm; c.verbose = c.replay = true; c.scenario = rs; c.tier = tier;
				std::stringstream ss(rp); std::string t;
				while (std::getline(ss, t, ',')) { c.val.push_back(atoi(t.c_str())); c.arity.push_back(0); }
				if (perWorkerInit) perWorkerInit();
				try { scen[si].fn(c); } catch (Skip&) {} catch (Fail&) {}
				printf("outcome: %s\n", c.outcomeText.c_str());
				printf(c.failed ? "REPLAY: violation reproduced\n" : "REPLAY: no violation\n");
				return c.failed ? 1 : 0;
			}
			return 2;
		}
		double t0 = now(); double budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : 1e9; bool over = false; int hangs = 0;
		std::vector<Violation> all; std::unordered_set<u64> outs, sts; std::vector<std::string> samples;
		u64 evals = 0, trans = 0, traces = 0; bool complete = true;
		std::map<std::string, u64> digests; std::string scj;
		for (size_t si = 0; si < scen.size(); ++si) {
			if (scen[si].thoroughOnly && tier != "thorough") continue;
			if (!onlyScen.empty() && onlyScen != scen[si].name) continue;
			if (over) { complete = false; break; }
			double s0 = now();
			std::vector<Shm*> sh(jobs); std::vector<pid_t> pid(jobs, 0); std::vector<int> restarts(jobs, 0);
			std::vector<u64> last(jobs, 0); std::vector<double> lastT(jobs, now()), lastC(jobs, 0);
			std::vector<std::string> rf(jobs), ef(jobs);
			u64 scEvals = 0; size_t scViol = all.size();
			auto spawn = [&](int w, bool resume) {
				fflush(stdout); fflush(stderr);
				pid_t p = fork();
				if (p == 0) {
					setpgid(0, 0);
					int fd = open(ef[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
					if (perWorkerInit) perWorkerInit();
					work((int)si, w, sh[w], resume, rf[w]);
					_exit(0);
				}
				pid[w] = p; lastT[w] = now(); lastC[w] = 0;
			};
			for (int w = 0; w < jobs; ++w) {
				sh[w] = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				rf[w] = scratch + "/r" + std::to_string(w); ef[w] = scratch + "/e" + std::to_string(w);
				unlink(rf[w].c_str());
				spawn(w, false);
			}
			int live = jobs; double stopAt = 0;
			while (live > 0) {
				int st; pid_t p = waitpid(-1, &st, WNOHANG);
				if (p == 0) {
					usleep(3000);
					if (now() - t0 > budget || over) {
						if (!stopAt) { stopAt = now(); complete = false; over = true; for (int w = 0; w < jobs; ++w) sh[w]->stop = 1; }
						else if (now() - stopAt > 6) for (int w = 0; w < jobs; ++w) if (pid[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); }
					}
					for (int w = 0; w < jobs; ++w) if (pid[w]) {
						if (sh[w]->progress != last[w]) { last[w] = sh[w]->progress; lastT[w] = now(); lastC[w] = cpuOf(pid[w]); }
						else if (now() - lastT[w] > hangSec && stuck((now() - lastT[w]) / (sh[w]->slow ? 4 : 1), (cpuOf(pid[w]) - lastC[w]) / (sh[w]->slow ? 4 : 1)) && sh[w]->pathLen > 0 && sh[w]->splitDepth >= 0) { lastT[w] = now() + 1e6; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); restarts[w] += 1000; }
					}
					continue;
				}
				if (p < 0) break;
				int w = -1; for (int i = 0; i < jobs; ++i) if (pid[i] == p) w = i;
				if (w < 0) continue;
				pid[w] = 0;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --live; continue; }
				if (stopAt && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { --live; continue; }
				bool hang = restarts[w] >= 1000; if (hang) restarts[w] -= 1000;
				if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) { // the same choices led elsewhere: the code under test does not behave the same every time
					Violation v; v.scenario = scen[si].name; for (int i = 0; i < sh[w]->pathLen; ++i) { if (i) v.path += ","; v.path += std::to_string(sh[w]->val[i]); }
					v.key = "nondeterministic:" + v.scenario; v.msg = "the same choices did not lead to the same execution"; v.detail = sh[w]->note; all.push_back(v); complete = false; --live; continue;
				}
				Violation v; v.scenario = scen[si].name;
				for (int i = 0; i < sh[w]->pathLen; ++i) { if (i) v.path += ","; v.path += std::to_string(sh[w]->val[i]); }
				std::string err; { FILE* f = fopen(ef[w].c_str(), "r"); if (f) { char b[4000]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); } }
				std::string kind = hang ? "hang" : WIFSIGNALED(st) ? sf("signal%d", WTERMSIG(st)) : sf("exit%d", WEXITSTATUS(st));
				size_t q = err.find("AddressSanitizer: "); if (q != std::string::npos) { size_t e = err.find_first_of(" \n", q + 18); kind = "asan-" + err.substr(q + 18, e - q - 18); }
				v.key = "crash:" + std::string(scen[si].name) + ":" + kind + ":" + (sh[w]->key[0] ? std::string(sh[w]->key) : std::string(sh[w]->note).substr(0, 200));
				v.msg = kind + " while executing"; v.detail = std::string(sh[w]->note) + "\n" + err;
				all.push_back(v);
				if (++restarts[w] >= maxRestarts || !sh[w]->pathLen || all.size() > 200) { complete = false; --live; continue; }
				if (hang && ++hangs >= 6) over = true;
				if (over) { complete = false; --live; continue; }
				spawn(w, true);
			}
			for (int w = 0; w < jobs; ++w) {
				scEvals += sh[w]->evals; trans += sh[w]->transitions; traces += sh[w]->traces; digests[scen[si].name] += sh[w]->digest[si];
				FILE* f = fopen(rf[w].c_str(), "rb");
				if (f) {
					uint32_t nv;
					while (fread(&nv, 4, 1, f) == 1) {
						for (uint32_t i = 0; i < nv; ++i) { Violation v; rd(f, v.scenario); rd(f, v.path); rd(f, v.key); rd(f, v.msg); rd(f, v.detail); if (fread(&v.count, 8, 1, f) != 1) break; all.push_back(v); }
						uint32_t n; u64 h;
						if (fread(&n, 4, 1, f) != 1) break; for (uint32_t i = 0; i < n; ++i) { if (fread(&h, 8, 1, f) != 1) break; outs.insert(h); }
						if (fread(&n, 4, 1, f) != 1) break; for (uint32_t i = 0; i < n; ++i) { if (fread(&h, 8, 1, f) != 1) break; sts.insert(h); }
						if (fread(&n, 4, 1, f) != 1) break; for (uint32_t i = 0; i < n; ++i) { std::string s; rd(f, s); if (w == 0 || w == jobs / 2) samples.push_back(std::string(scen[si].name) + ": " + s); }
					}
					fclose(f);
				}
				munmap(sh[w], sizeof(Shm)); unlink(rf[w].c_str()); unlink(ef[w].c_str());
			}
			evals += scEvals;
			if (scj.size()) scj += ",";
			scj += sf("\"%s\":{\"executions\":%llu,\"wall_s\":%.2f}", scen[si].name, (unsigned long long)scEvals, now() - s0);
			if (all.size() - scViol) fprintf(stderr, "[%s] %zu violation(s)\n", scen[si].name, all.size() - scViol);
		}
		// dedupe by key, keep shortest path
		std::map<std::string, Violation> by;
		for (auto& v : all) { auto it = by.find(v.key); if (it == by.end()) by[v.key] = v; else { u64 n = it->second.count + v.count; if (v.path.size() < it->second.path.size()) it->second = v; it->second.count = n; } }
		FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
		fprintf(f, "{\"evals\":%llu,\"distinct\":%zu,\"states\":%zu,\"transitions\":%llu,\"traces\":%llu,\"complete\":%s,\"wall\":%.2f,\"scenarios\":{%s},\"digests\":{",
			(unsigned long long)evals, outs.size(), sts.size(), (unsigned long long)trans, (unsigned long long)traces, complete ? "true" : "false", now() - t0, scj.c_str());
		bool first = true;
		for (auto& d : digests) { fprintf(f, "%s\"%s\":\"%016llx\"", first ? "" : ",", d.first.c_str(), (unsigned long long)d.second); first = false; }
		fprintf(f, "},\"samples\":[");
		for (size_t i = 0; i < samples.size() && i < 12; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
		fprintf(f, "],\"violations\":[");
		first = true;
		for (auto& kv : by) { auto& v = kv.second; fprintf(f, "%s{\"scenario\":\"%s\",\"path\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"detail\":\"%s\",\"count\":%llu}", first ? "" : ",", jesc(v.scenario).c_str(), v.path.c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(v.detail).c_str(), (unsigned long long)v.count); first = false; }
		fprintf(f, "]}\n");
		if (!out.empty()) fclose(f);
		return 0;
	}
};
} // namespace mc
