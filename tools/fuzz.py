#!/usr/bin/env python3
"""Coverage-guided part of the thorough tier of C04.

usage: fuzz.py HARNESS FUZZER OUTDIR EVIDENCE SECONDS

Runs libFuzzer from generated seed cases, turns what it finds into replay files of suite "fuzzed", confirms
them with the harness, and adds the number of executions to the evidence."""
import glob, json, os, re, shutil, subprocess, sys, tempfile

harness, fuzzer, out, evidence, seconds = sys.argv[1:6]
seed = int(os.environ.get("VERIF_SEED", "1"))
tmp = tempfile.mkdtemp(prefix="verif-fuzz-")
bad = 0
try:
    start = tmp + "/seeds"; os.mkdir(start)
    subprocess.run([harness, "--seeds", start, "3000"], check=True)
    procs = []
    for j in range(8):
        d = f"{tmp}/{j}"; os.makedirs(d + "/corpus"); os.mkdir(d + "/art")
        # Half of them without any seeds.
        dirs = [d + "/corpus"] + ([start] if j % 2 == 0 else [])
        log = open(d + "/log", "w")
        procs.append(subprocess.Popen([fuzzer, f"-seed={seed * 100 + j + 1}", f"-max_total_time={seconds}", "-max_len=4000", "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=1",
                                       f"-artifact_prefix={d}/art/", "-print_final_stats=1"] + dirs, stdout=log, stderr=log, cwd=d))
    for p in procs: p.wait()
    execs = cov = corpus = 0
    for j in range(8):
        t = open(f"{tmp}/{j}/log", errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units: (\d+)", t); n = re.findall(r"^#(\d+)\s", t, re.M)
        execs += int(m[-1]) if m else int(n[-1]) if n else 0
        m = re.findall(r"cov: (\d+)", t); cov = max(cov, int(m[-1]) if m else 0)
        corpus += len(os.listdir(f"{tmp}/{j}/corpus"))
    print(f"[C04/fuzzed] {execs} executions of libFuzzer, {corpus} inputs with new coverage, {cov} edges")
    for a in sorted(glob.glob(tmp + "/*/art/*")):
        data = open(a, "rb").read()
        name = os.path.basename(a)
        rp = f"{out}/C04-fuzzed-{name}.replay"
        with open(rp, "w") as f:
            f.write("property C04\nsuite fuzzed\nmessage %s\nchoices\n%d %s\nend\n" % (name, len(data), " ".join(map(str, data))))
        if name.startswith(("slow-unit", "timeout", "oom")):
            # Not by itself a failure; the harness has its own limits.
            pass
        ok = 0
        for _ in range(3):
            r = subprocess.run([harness, "--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            ok += r.returncode == 1
        if ok == 3:
            print(r.stdout[-2000:]); print(f"VIOLATION property=C04 replay={rp}"); bad += 1
        else:
            os.unlink(rp)
    e = json.load(open(evidence))
    e["coverage"]["parts"]["fuzzed"] = {"executions": execs, "inputs_with_new_coverage": corpus, "edges": cov, "seconds": int(seconds), "processes": 8}
    e["coverage"]["evaluations"] += execs
    e["violations"] = e.get("violations", 0) + bad
    json.dump(e, open(evidence, "w"))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
