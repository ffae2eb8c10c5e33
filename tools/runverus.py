"""Run Verus on an assembled file and turn its diagnostics into per-function failures."""
import json, re, os, signal, subprocess, time


def owner_at(amap, fns, line):
    if line in amap:
        return amap[line]
    for k, f in fns.items():
        if f["vstart"] <= line <= f.get("vend", -1):
            return (k, "body", ())
    return None


def verus(path, amap, fns, extra=(), timeout=600, rlimit=30, errors=20):
    cmd = ["verus", path, "--error-format=json", "--output-json", "--time-expanded", "--rlimit", str(rlimit),
           "--multiple-errors", str(errors)] + list(extra)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         cwd=os.path.dirname(path))
    try:
        so, se = p.communicate(timeout=timeout)
        timed = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
        timed = True
    res = dict(wall=time.time() - t0, timeout=timed, rc=p.returncode, failures=[], compile=[], verified=0, errors=0,
               smt_ms=0, functions={})
    try:
        j = json.loads(so)
    except Exception:
        j = {}
    vr = j.get("verification-results", {})
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    res["have_results"] = bool(vr) and not vr.get("encountered-vir-error", False)
    sm = j.get("times-ms", {}).get("smt", {})
    res["smt_ms"] = sm.get("total", 0)
    for mt in sm.get("smt-run-module-times", []):
        for fb in mt.get("function-breakdown", []):
            res["functions"][fb["function"]] = dict(ok=fb["success"], us=fb["time-micros"], rlimit=fb["rlimit"])
    base = os.path.basename(path)
    for ln in se.split("\n"):
        if not ln.startswith("{"):
            continue
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("level") != "error":
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        spans = [s for s in d["spans"] if os.path.basename(s["file_name"]) == base]
        sites = []
        for s in spans:
            sites.append(dict(line=s["line_start"], primary=s["is_primary"], label=s.get("label"),
                              own=owner_at(amap, fns, s["line_start"]),
                              text=" ".join(t["text"].strip() for t in s["text"][:2])[:300]))
        f = dict(msg=msg, sites=sites, code=(d.get("code") or {}).get("code") if d.get("code") else None,
                 rendered=d.get("rendered", "")[:3000])
        (res["failures"] if is_verif(msg) and not f["code"] else res["compile"]).append(f)
    return res


VERIF = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
         "loop invariant not satisfied", "possible arithmetic", "Resource limit", "loop ensures not satisfied",
         "unable to prove", "possible division", "recommendation not met", "decreases not satisfied",
         "cannot show", "rlimit", "while loop: Resource", "function body check", "assert_by", "constructed value may fail",
         "unreachable", "possible bit", "unwind", "loop must", "assertion failure", "could not prove", "possible overflow")


def is_verif(msg):
    return any(v in msg for v in VERIF)


def attribute(f):
    """(function, kind, clause site, tags) of a failure."""
    fn = None
    clause = None
    for s in f["sites"]:
        if s["own"] and s["own"][1] in ("body", "lemma", "shim") and fn is None:
            fn = s["own"][0]
    for s in f["sites"]:
        if s["own"] and s["own"][1] in ("requires", "ensures"):
            clause = s
            if fn is None or "postcondition" in f["msg"]:
                fn = fn if fn and "postcondition" not in f["msg"] else s["own"][0]
    return fn, clause


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import assemble
    mods = sys.argv[1].split(",")
    data = assemble.extract(os.environ.get("VERIF_REPO", "/repo"), assemble.HERE + "/extract/target/debug/extract")
    data["files"] = [f for f in data["files"] if f["module"] in mods]
    a = assemble.Assembler(data)
    t = a.run()
    d = os.environ.get("VV_TMP", "/tmp/x")
    os.makedirs(d, exist_ok=True)
    open(d + "/all.rs", "w").write(t)
    for m in mods:
        for k, s in a.specs[m].items():
            if not s.used:
                print("UNUSED", m, k)
    for k, n in a.notes.items():
        if n and n != ["no contract"]:
            print("NOTE", k, n)
    extra = sys.argv[2:]
    r = verus(d + "/all.rs", a.out.map, a.fns, extra, errors=8, rlimit=float(os.environ.get("RL", "20")))
    N = int(os.environ.get("N", "40"))
    W = int(os.environ.get("W", "150"))
    for f in (r["compile"][:12] or r["failures"][:N]):
        if r["compile"]:
            print(f["rendered"][:700])
            continue
        fn, cl = attribute(f)
        want = os.environ.get("F")
        if want and not any(x["own"] and re.search(want, x["own"][0]) for x in f["sites"]):
            continue
        print(f"[{fn}] {f['msg'][:60]}")
        for s in f["sites"]:
            print(f"     {s['line']}{'*' if s['primary'] else ''} {s['own'][1] if s['own'] else '?'}: {s['text'][:W]}")
    print(f"verified {r['verified']} errors {r['errors']} compile {len(r['compile'])} wall {r['wall']:.1f}s smt {r['smt_ms']}ms timeout {r['timeout']} rc {r['rc']}")
    slow = sorted(r["functions"].items(), key=lambda x: -x[1]["us"])[:6]
    print("slow:", [(k.split("::", 1)[1], round(v["us"] / 1e6, 1)) for k, v in slow])
    bad = [k.split("::", 1)[1] for k, v in r["functions"].items() if not v["ok"]]
    print("bad:", bad)
