#!/usr/bin/env python3
"""Planted-bug workshop (not used by any check).
 bug.py make SPEC.py [ids]   SPEC.py defines BUGS=[dict(id,prop,edits=[(file,old,new)],w=,expect=,cpp=,variant=,flags=,needs=,breaks=)]
 bug.py check [ids]          re-run the property's quick check (and demo) against the stored patch, in a private mount of a copy
Works on a copy of /repo bind-mounted over /repo in a private mount namespace, so /repo itself is never touched."""
import sys, os, json, subprocess, shutil, runpy, time
V = "/verif"; S = V + "/seeded"; T = "/tmp/bugs"
RUN_W = r'''// runs the script beside the demo and prints what it logs
#include "wrench.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
static void show(const WRValue& v) {
	int n = 0;
	if (v.isString(&n)) { unsigned l = 0; char* a = (char*)v.array(&l); printf("\"%.*s\"", (int)l, a ? a : ""); }
	else if (v.isWrenchArray(&n)) { printf("["); unsigned i = 0; for (WRValue::Iterator it = v.begin(); it != v.end(); ++it, ++i) { if (i) printf(","); show(*(*it).value); } printf("]"); }
	else if (v.isFloat()) printf("f%.9g", v.asFloat());
	else printf("%d", v.asInt());
}
static void out(WRContext*, const WRValue* argv, const int argn, WRValue& ret, void*) { for (int i = 0; i < argn; ++i) { if (i) printf(" "); show(argv[i]); } printf(";"); fflush(stdout); wr_makeInt(&ret, argn); }
int main(int argc, char** argv) {
	static char buf[1 << 20]; FILE* f = fopen(argv[1], "rb"); int n = (int)fread(buf, 1, sizeof buf, f); fclose(f);
	unsigned char* b = 0; int len = 0; int e = wr_compile(buf, n, &b, &len, 0, WR_INCLUDE_GLOBALS);
	if (e) { printf("compile error %d\n", e); return 0; }
	WRState* w = wr_newState(argc > 2 ? atoi(argv[2]) : 128); wr_loadAllLibs(w); wr_registerFunction(w, "out", out);
	wr_run(w, b, len); if (wr_getLastError(w)) printf("!E%d", wr_getLastError(w)); printf("\n");
	wr_destroyState(w); g_free(b); return 0;
}
'''
def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw); return p.returncode, p.stdout
def write(p, s, x=False):
    open(p, "w").write(s)
    if x: os.chmod(p, 0o755)
def demo_files(d, b):
    var = b.get("variant", "default"); fl = b.get("flags", {"default": "", "compact": "-DWRENCH_COMPACT", "slices": "-DWRENCH_TIME_SLICES -DWRENCH_PROTECT_STACK_FROM_OVERFLOW -DWRENCH_LINUX_TCP -DWRENCH_LINUX_SERIAL"}.get(var, ""))
    src = b.get("cpp")
    if var in ("default", "compact", "slices"): objs = "_build/%s/objs_linux/*.o" % var; pre = ""
    else:
        fl = {"mfail": "-DWRENCH_HANDLE_MALLOC_FAIL", "cmfail": "-DWRENCH_COMPACT -DWRENCH_HANDLE_MALLOC_FAIL", "unaligned": "-DWRENCH_UNALIGNED_READS", "amalgam": ""}[var]
        if var == "amalgam": pre = 'g++ -O0 -w -std=c++98 -I_build/default/vp/new -DWRENCH_LINUX_FILE_IO -c _build/default/vp/new/wrench.cpp -o "$T/all.o" || exit 2\n'
        else: pre = 'sed -n \'s/^$(OBJDIR)\\/[A-Za-z0-9_]*\\.o: *\\([^ ]*\\.cpp\\).*/\\1/p\' GNUmakefile | tr -d "\\r" | sort -u | while read -r f; do [ -f "$f" ] && echo "$f"; done | xargs -P 8 -I F sh -c \'g++ -O0 -w -std=c++98 -iquote discrete_src -I. -DWRENCH_LINUX_FILE_IO %s -c F -o "$0/$(echo F | tr / _).o"\' "$T" || exit 2\n' % fl
        objs = '"$T"/*.o'
    write(d + "/demo.cpp", src or RUN_W)
    run = '"$T/demo" "$D/demo.w" > "$T/out" 2>&1' if not src else '"$T/demo" > "$T/out" 2>&1'
    s = '#!/bin/bash\n# cwd: /repo, after the build. 0: behaves as stated. nonzero: broken.\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap \'rm -rf "$T"\' EXIT\n' + pre
    s += 'g++ -O1 -w -std=c++98 -iquote discrete_src -I. -DWRENCH_LINUX_FILE_IO %s "$D/demo.cpp" %s -o "$T/demo" || exit 2\n' % (fl, objs)
    s += '(cd "$T" && ulimit -c 0 && timeout 60 %s); rc=$?\ncat "$T/out" | head -c 2000\n' % run
    if src: s += 'exit $rc\n'
    else:
        write(d + "/demo.w", b["w"]); write(d + "/expect.txt", b["expect"] + "\n")
        s += 'cmp "$T/out" "$D/expect.txt"\n'
    write(d + "/demo.sh", s, True)
INNER = r'''
mount --bind %(copy)s /repo && mkdir -p %(copy)s.ev && mount --bind %(copy)s.ev /verif/evidence || exit 9
cd /repo
if [ "%(full)s" = 1 ]; then
 bash /opt/vp/test.sh %(copy)s.json > %(copy)s.log 2>&1
 python3 - <<'P' || { echo TESTS-FAIL; grep -m5 error %(copy)s.log; exit 8; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=json.load(open('%(copy)s.json'))
g=set(t.get('passed',[]))
m=sorted(b-g)
print("tests missing", len(m), m[:6]); sys.exit(1 if m else 0)
P
 bash %(demo)s > %(copy)s.demo 2>&1; rc=$?; echo "demo with patch rc=$rc"; head -c 300 %(copy)s.demo; [ $rc = 0 ] && echo DEMO-DID-NOT-FAIL
fi
for p in %(props)s; do
 (cd /verif; VERIF_SEED=1 VERIF_TIER=quick MC_SHOW=2 timeout 900 python3 run.py $p quick) > %(copy)s.$p.out 2>&1; rc=$?
 echo "check $p rc=$rc"; grep -a -m2 -A1 VIOLATION %(copy)s.$p.out | cut -c1-300; [ $rc -gt 1 ] && tail -5 %(copy)s.$p.out | cut -c1-400
done
exit 0
'''
def process(bid, prop, demo, patch, full, props):
    copy = T + "/" + bid; shutil.rmtree(copy, ignore_errors=True); os.makedirs(T, exist_ok=True)
    sh(["cp", "-a", "/repo", copy])
    rc, o = sh(["git", "-C", copy, "apply", patch])
    if rc: print(bid, "PATCH DOES NOT APPLY", o); return
    sc = copy + ".sh"; open(sc, "w").write(INNER % dict(copy=copy, full=1 if full else 0, demo=demo, props=" ".join(props)))
    rc, o = sh(["unshare", "-m", "bash", sc])
    print("=== %s [%s]\n%s" % (bid, prop, o), flush=True)
    shutil.rmtree(copy, ignore_errors=True); res = o
    for f in os.listdir(T):
        if f.startswith(bid + ".") and not f.endswith(".out"):
            p = T + "/" + f; shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return res
def main():
    if sys.argv[1] == "make":
        ns = runpy.run_path(sys.argv[2]); ids = sys.argv[3:]
        for b in ns["BUGS"]:
            if ids and b["id"] not in ids: continue
            d = S + "/" + b["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); wt = T + "/mk"; shutil.rmtree(wt, ignore_errors=True); os.makedirs(T, exist_ok=True)
            sh("git -C /repo worktree prune; git clone -q /repo " + wt)
            ok = True
            for f, old, new in b["edits"]:
                p = wt + "/" + f; t = open(p, newline="").read(); crlf = "\r\n" in t
                if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
                if t.count(old) != 1: print(b["id"], "edit matches", t.count(old), "times in", f, repr(old[:60])); ok = False; break
                open(p, "w", newline="").write(t.replace(old, new))
            if not ok: shutil.rmtree(d); continue
            rc, diff = sh(["git", "-C", wt, "diff"]); 
            with open(d + "/patch.diff", "wb") as fo: fo.write(subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout)
            shutil.rmtree(wt)
            demo_files(d, b); json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc, o = sh(["bash", d + "/demo.sh"], cwd="/repo"); print(b["id"], "demo clean rc", rc, "" if rc == 0 else o[:600])
            if rc: shutil.rmtree(d); continue
            o = process(b["id"], b["prop"], d + "/demo.sh", d + "/patch.diff", True, b.get("check", [b["prop"]])) or ""
            if "TESTS-FAIL" in o or "DEMO-DID-NOT-FAIL" in o or "DOES NOT APPLY" in o: shutil.rmtree(d); print(b["id"], "REMOVED")
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            d = S + "/" + i; m = json.load(open(d + "/meta.json")); process(i, m["property"], d + "/demo.sh", d + "/patch.diff", False, [m["property"]])
main()
