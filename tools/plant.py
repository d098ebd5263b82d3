"""python plant.py BUGSFILE [id...]  -> /verif/seeded (in /tmp/w/seeded first)"""
import importlib.util, json, os, shutil, subprocess, sys
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
PY = "/opt/venv/bin/python"
os.makedirs("/tmp/w/seeded", exist_ok=True)
for b in m.B:
    if only and b["id"] not in only:
        continue
    sc = f"/tmp/w/sc-{b['id']}"
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", sc], check=True)
    d = f"/tmp/w/seeded/{b['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok = True
    for f, old, new in b["edits"]:
        p = f"{sc}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT does not match once:", s.count(old), old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        shutil.rmtree(sc); shutil.rmtree(d); continue
    diff = subprocess.run(["git", "-C", sc, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=sc, capture_output=True, text=True)
    print(b["id"], "demo unpatched", r0.returncode, "patched", r1.returncode, (r1.stderr.strip().splitlines() or [""])[-1][:140])
    if r0.returncode:
        print(r0.stderr[-600:])
    if r0.returncode or not r1.returncode:
        shutil.rmtree(sc); continue
    # all tests
    env = dict(os.environ, PYTHONPATH=sc, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg")
    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "-x", "--timeout=300", "tests"], cwd=sc, env=env, capture_output=True, text=True)
    print("   tests:", t.stdout.strip().splitlines()[-1])
    if "failed" in t.stdout:
        print("   ", [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:2])
        shutil.rmtree(sc); continue
    env = dict(os.environ, VERIF_REPO=sc, VERIF_JOBS="6")
    c = subprocess.run(["bash", "/tmp/w/verif/run.sh", b["prop"], "quick"], env=env, capture_output=True, text=True)
    print("   check:", c.returncode, [l[:200] for l in c.stdout.splitlines() if "VIOLATION" in l or ":" in l and not l.startswith(" ")][:2])
    open(d + "/.caught", "w").write(str(c.returncode))
    shutil.rmtree(sc)
    sys.stdout.flush()
