#!/usr/bin/env python3
"""dev tool: computes the //@ src: list of a harness (iterated gc-sections link)"""
import sys, os, re, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver as D
hf = os.path.abspath(sys.argv[1])
b = D.Builder(tempfile.mkdtemp()); b.tools()
import concurrent.futures as cf
meta = D.parse_harness(hf)
cfg = (meta["quick"] or [{}])[0]
defs = tuple("-D%s=%s" % (k[1:], v) for k, v in cfg.items() if k.startswith("D"))
with cf.ThreadPoolExecutor(8) as ex:
    h = ex.submit(b.obj, hf, defs, False); g = ex.submit(b.obj, D.ENG + "/gslmodel.cpp", (), False)
    objs = dict(zip([os.path.relpath(s, D.SRC) for s in b.all_sources()], ex.map(b.obj, b.all_sources())))
    h, g = h.result(), g.result()
defn = {}
for rel, o in objs.items():
    for l in subprocess.run(["nm", "-C", "--defined-only", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        p = l.split(None, 2)
        if len(p) == 3 and p[1] in "TDBRVWud": 
            if p[1] == "W": defn.setdefault(p[2], rel)
            else: defn[p[2]] = rel
cur = []
for it in range(60):
    r = b.link([h, g] + [objs[c] for c in cur], "/tmp/closure.exe")
    if r.returncode == 0: break
    und = set(re.findall(r"undefined reference to `([^']*)'", r.stdout))
    add = sorted({defn[u] for u in und if u in defn} - set(cur))
    if not add:
        print("unresolved:", [u for u in und if u not in defn][:10]); break
    cur += add
cur.sort()
print("//@ src: " + " ".join(cur))
if "-w" in sys.argv:
    s = open(hf).read()
    s = re.sub(r"//@ src:.*\n", "", s)
    open(hf, "w").write("//@ src: " + " ".join(cur) + "\n" + s)
