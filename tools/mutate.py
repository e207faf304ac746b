#!/usr/bin/env python3
"""tools/mutate.py WORKDIR NWORKERS THREADS OUT.jsonl FILE[:MAX[:SEED]] ...
Development aid (no check uses it): mutates copies of /repo, runs the relevant quick checks on each mutant and, for
mutants no check notices, the stable tests. Prints the survivors. Everything happens in WORKDIR."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, signal, time
WORK, NW, TH, OUT = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
CH = [("predicates/predicates.rs", "C01 C03 C02 C08"), ("expansion_number", "C03 C05"), ("interval_number", "C04 C07 C05"),
      ("generic_point", "C07 C06 C05"), ("less_than", "C07"), ("orient2d", "C06"), ("orient3d", "C05"), ("predicates/mod.rs", "C09 C08 C06"),
      ("mesh/", "C10 C11 C12"), ("disjoint_set", "C13"), ("graphcut/", "C14 C15"), ("math/", "C09 C18 C22"), ("triangle/triangle.rs", "C16 C18 C17 C24"),
      ("triangle/tetrahedron.rs", "C19 C20"), ("polygonlization/mod", "C21 C23 C22 C25"), ("polygonlization/", "C23 C26 C25")]
def strip(l): return l.split("//")[0]
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "),
         (" * ", " + "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), (".min(", ".max("), (".max(", ".min("),
         ("[0]", "[1]"), ("[1]", "[0]"), ("[2]", "[1]"), ("[1]", "[2]"), (" += ", " -= "), (" -= ", " += "), ("::Positive", "::Negative"), ("::Negative", "::Positive"),
         ("(!", "("), (" !", " "), ("..=", ".."), (" < ", " > "), (" > ", " < "), (" % ", " / "), (".any(", ".all("), (".all(", ".any("), ("continue;", ";"), ("break;", ";"),
         ("next", "prev"), ("prev", "next"), ("sym", "esym"), ("enext", "eprev"), ("eprev", "enext"), ("org", "dest"), ("dest", "org"), (" 1", " 2"), (" 0", " 1"), (" 2", " 1"), ("0.0", "1e-9")]
def mutants(path):
    L = open(path).read().split("\n"); out = []
    test = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l or "#[test]" in l), len(L))
    for i, l in enumerate(L[:test]):
        s = strip(l)
        t = s.strip()
        if not t or t.startswith(("use ", "#", "pub use", "mod ", "/*", "*", "pub fn", "fn ", "impl", "where", "macro_rules", "assert", "debug_assert")): continue
        def add(new, why):
            if new != l: out.append((i, l, new, why))
        for a, b in SWAPS:
            k = -1
            while True:
                k = s.find(a, k + 1)
                if k < 0: break
                if a[0].isalpha() and k and (s[k-1].isalnum() or s[k-1] == "_"): continue
                if a[0].isalpha() and a[-1].isalpha() and k + len(a) < len(s) and (s[k+len(a)].isalpha()): continue
                if a in (" 1", " 2", " 0") and k + 2 < len(s) and (s[k+2].isalnum() or s[k+2] in "._"): continue
                add(s[:k] + b + s[k+len(a):], f"{a!r}->{b!r}")
        if t.endswith(";") and not t.startswith(("let ", "return", "}", ")", "]", "const", "static", "type", ".")) and s.count("(") == s.count(")") and s.count("[") == s.count("]") and s.count("{") == s.count("}"):
            add(re.match(r"\s*", s).group(0) + ";", "delete")
        m = re.match(r"(.*\bif )(?!let)(.+)( \{.*)$", s)
        if m:
            add(f"{m[1]}({m[2]}) && false{m[3]}", "if false"); add(f"{m[1]}({m[2]}) || true{m[3]}", "if true")
        for m in re.finditer(r"\(([a-z_0-9]+), ([a-z_0-9]+)", s):
            if m[1] != m[2]: add(s[:m.start()] + f"({m[2]}, {m[1]}" + s[m.end():], "swap args")
        for m in re.finditer(r", ([a-z_0-9]+), ([a-z_0-9]+)\b", s):
            if m[1] != m[2]: add(s[:m.start()] + f", {m[2]}, {m[1]}" + s[m.end():], "swap args2")
    return out
jobs = queue.Queue()
DONE = set()
if os.path.exists(OUT): DONE = {(d["file"], d["line"], d["why"], d["new"]) for d in map(json.loads, open(OUT))}
for spec in sys.argv[5:]:
    p = spec.split(":"); f = p[0]; mx = int(p[1]) if len(p) > 1 else 10**9
    ms = mutants("/repo/" + f)
    if len(p) > 3:
        a, b = map(int, p[3].split("-")); ms = [m for m in ms if not a <= m[0] + 1 <= b]
    random.Random(int(p[2]) if len(p) > 2 else 1).shuffle(ms)
    # at most two mutants per line in the sample
    seen = {}; sel = []
    for m in ms:
        if seen.get(m[0], 0) < 2: sel.append(m); seen[m[0]] = seen.get(m[0], 0) + 1
        if len(sel) >= mx: break
    checks = next(c for k, c in CH if k in "/" + f or k in f)
    for m in sel:
        if (f, m[0] + 1, m[3], m[2].strip()) not in DONE: jobs.put((f, checks.split(), m))
print(jobs.qsize(), "mutants", flush=True)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-05-01", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", GPFMC_THREADS=TH)
base = json.load(open("/opt/vp/BASELINE.json")); stable = base if isinstance(base, list) else base.get("stable_passing", base.get("passed", base.get("stable", [])))
lock = threading.Lock()
def run(cmd, cwd, env, to):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
    try: o, _ = p.communicate(timeout=to); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, "timeout"
def worker(w):
    d = f"{WORK}/w{w}"; r = d + "/repo"; v = d + "/verif"
    if not os.path.isdir(d):
        os.makedirs(d); shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"))
        os.makedirs(v); shutil.copytree("/verif/harness", v + "/harness", ignore=shutil.ignore_patterns("target"))
        for f in ["MANIFEST.json", "properties.jsonl", "known-findings.txt"]: shutil.copy("/verif/" + f, v + "/" + f)
        shutil.copytree("/verif/tools", v + "/tools")
        for x in os.listdir(v + "/harness"):
            q = f"{v}/harness/{x}"
            if os.path.isfile(q):
                s = open(q).read(); s2 = s.replace("/repo", r).replace("opt-level = 3", "opt-level = 2").replace('"line-tables-only"', "0"); open(q, "w").write(s2)
        for dp, _, fs in os.walk(v + "/harness/src"):
            for x in fs:
                q = dp + "/" + x; s = open(q).read(); s2 = s.replace('"/verif', f'"{v}'); open(q, "w").write(s2)
    for dp, _, fs in os.walk(r + "/src"):
        for x in fs:
            if x.endswith(".rs"): shutil.copy(f"/repo/{os.path.relpath(dp, r)}/{x}", f"{dp}/{x}")
    while True:
        try: f, checks, (i, old, new, why) = jobs.get_nowait()
        except queue.Empty: return
        p = f"{r}/{f}"; src = open("/repo/" + f).read(); L = src.split("\n"); assert L[i] == old
        L[i] = new; open(p, "w").write("\n".join(L))
        t0 = time.time(); res = {"file": f, "line": i + 1, "why": why, "old": old.strip(), "new": new.strip()}
        c, o = run(f"GPFMC_TARGET={d}/target bash {v}/harness/build.sh", v, ENV, 600)
        if c != 0: res["res"] = "nobuild"
        else:
            B = o.strip().split("\n")[-1]; res["res"] = None
            for c in checks:
                rc, o = run(f"{B} check {c} quick", v, ENV, 1500)
                if rc != 0:
                    m = re.search(r"family=(.*?) index", o); res["res"] = f"{c}:{rc}"; res["fam"] = m[1] if m else o[-150:]; break
            if res["res"] is None:
                rc, o = run(f"CARGO_PROFILE_TEST_OPT_LEVEL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR={d}/ttarget RUSTFLAGS=-Awarnings timeout 600 cargo test --offline --no-fail-fast -- --test-threads 2", r, ENV, 700)
                ok = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M)); names = [s.split("::")[-1] for s in stable]
                miss = [s for s in names if not any(k.split("::")[-1] == s for k in ok)]
                res["res"] = "TESTS" if miss else "SURVIVED"; res["miss"] = miss[:3]
        res["t"] = round(time.time() - t0); open(p, "w").write(src)
        with lock:
            open(OUT, "a").write(json.dumps(res) + "\n")
            if res["res"] in ("SURVIVED", "TESTS") or res["res"].endswith(":124"): print(json.dumps(res), flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
