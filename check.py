#!/usr/bin/env python3
"""check.py PROP [--thorough] [--verbose]     decide one property on /repo's current tree
   check.py --replay FILE                     run a replay file again

The deciding step is Verus accepting every obligation of the functions the property depends on,
generated from /repo's current source (tools/assemble.py).  Next to it the harness runs the real
crate, unmodified, against executable models of the same contracts: it supplies failing inputs for
failed obligations and it is the bounded stand-in for a function the proof cannot reach (labelled so).
Exit 0: held.  Exit 1: a VIOLATION line.  Anything else: an error of the check itself."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
sys.dont_write_bytecode = True
import assemble, runverus                                       # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = HERE + "/build"
HARNESS = HERE + "/harness/target/debug/harness"
BASE = ["utils", "optionals"]
SYS = {"C": ["cycle"], "P": ["partial"], "G": ["group"]}
MODS = {"C": ["cycle_map"], "P": ["partial_cycle_map"], "G": ["group_map"]}
XSYS = {"X03": ["opt"], "X04": ["cycle"]}
XMODS = {"X03": [], "X04": ["cycle_map", "serde"]}
ALL = ["cycle_map", "partial_cycle_map", "group_map"]
T0 = time.time()
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print(s, flush=True)


def systems(p):
    return SYS.get(p[0]) or XSYS.get(p) or ["cycle", "partial", "group"]


def modules(p):
    m = MODS.get(p[0]) or XMODS.get(p)
    m = ALL if m is None else m
    have = [x for x in m if os.path.exists(f"{HERE}/contracts/{x}.vspec")]
    return BASE + have, [x for x in m if x not in have]


# ------------------------------------------------------------------ builds
def cargo(d, res):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=f"{HERE}/{d}", env=env, capture_output=True, text=True)
    res[d] = (p.returncode, p.stderr[-3000:])


def build():
    res = {}
    ts = [threading.Thread(target=cargo, args=(d, res)) for d in ("extract", "harness")]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for d, (rc, err) in res.items():
        if rc:
            print(f"ERROR building {d}:\n{err}")
            sys.exit(3)


# ------------------------------------------------------------------ harness
def props_of_last_step(err):
    l = [x for x in err.split("\n") if x.startswith("STEP ")]
    if not l:
        return "", []
    f = l[-1].split(" ")
    return f[2], f[3].split(",")


def search(prop, syss, cases, secs, out, seed):
    """-> dict(found=bool, msg, file, stats)"""
    for x in os.listdir(os.path.dirname(out)):
        if x.startswith(os.path.basename(out)):
            os.remove(os.path.join(os.path.dirname(out), x))
    r = dict(found=False, msg="", file=out, stats={}, note="")
    cmd = [HARNESS, "search", ",".join(syss), prop, "--cases", str(cases), "--secs", str(secs), "--seed", str(seed), "--out", out]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 90)
    except subprocess.TimeoutExpired:
        r["note"] = "harness did not end in time"
        return r
    for l in p.stdout.split("\n"):
        if l.startswith("FOUND "):
            r.update(found=True, msg=l[6:])
        elif l.startswith("STATS "):
            r["stats"] = json.loads(l[6:])
        elif l.startswith("HANG "):
            r["note"] = l
    if p.returncode in (0, 10, 12):
        return r
    # the process died inside the code under test: find the case and run it alone
    d = os.path.dirname(out)
    tried = []
    for x in sorted(os.listdir(d)):
        if not x.startswith(os.path.basename(out) + ".cur."):
            continue
        try:
            s, idx = open(os.path.join(d, x)).read().split()[:2]
        except ValueError:
            continue
        t = subprocess.run([HARNESS, "gen", s, idx, "--seed", str(seed)], capture_output=True, text=True).stdout
        f = out + f".{s}.{idx}"
        open(f, "w").write(t)
        try:
            q = subprocess.run([HARNESS, "replay", f], capture_output=True, text=True, timeout=30)
            rc, err = q.returncode, q.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = -1, (e.stderr or b"").decode(errors="replace")
        if rc in (0, 1):
            continue
        op, ps = props_of_last_step(err)
        tried.append((op, ps))
        if prop in ps + ["X06"]:
            k = sum(1 for l in err.split("\n") if l.startswith("STEP "))
            ls = t.strip().split("\n")
            msg = f"the process dies (code {rc}) in {op}"
            open(out, "w").write(f"# property {prop}\n# {msg}\n" + "\n".join(ls[:k + 1]) + "\n")
            r.update(found=True, msg=msg)
            return r
    r["note"] = f"harness process died (code {p.returncode}) in operations of other properties: {tried}"
    return r


def conform(cases):
    """the contracts the shim assumes of hashbrown, evaluated on the real hashbrown (bounded)"""
    p = subprocess.run([HARNESS, "conform", "--cases", str(cases), "--seed", str(SEED)], capture_output=True, text=True, timeout=600)
    return dict(cases=cases, ok=p.returncode == 0, note=(p.stdout + p.stderr)[-400:] if p.returncode else "")


def known(prop):
    """recorded findings of this property that still fail"""
    ents = []
    for l in open(HERE + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m:
            ents.append(m.groups())
    mine = [e for e in ents if e[0] == prop]
    if not mine:
        return []
    p = subprocess.run([HARNESS, "known"], capture_output=True, text=True, timeout=60)
    st = dict(l.split()[1:3] for l in p.stdout.split("\n") if l.startswith("KNOWN "))
    return [e for e in mine if st.get(e[1]) == "fails"]


# ------------------------------------------------------------------ proof
def prop_hit(prop, a, f):
    """does this failed obligation concern prop?  -> (fn key, text)"""
    fn, cl = runverus.attribute(f)
    info = a.fns.get(fn) if fn else None
    fprops = set(info["props"]) if info else set()
    text = f["msg"]
    if cl:
        text += f" [{cl['own'][0]} {cl['own'][1]}: {cl['text'][:200]}]"
    elif f["sites"]:
        text += f" [{f['sites'][0]['text'][:200]}]"
    if info is None:
        return fn, text, True
    if "postcondition" in f["msg"] and cl and cl["own"][1] == "ensures":
        tags = set(cl["own"][2] or ())
        if tags and tags <= {"C01", "P01", "G01"}:
            tags |= fprops - {"X06"}
        return fn, text, prop in (tags or fprops)
    if "precondition" in f["msg"]:
        fprops = fprops | {"X06"}
    return fn, text, prop in fprops


def new_helpers(a, key):
    """functions without a contract that key calls (directly)"""
    names = {i["name"] for k, i in a.fns.items() if not i["has_spec"]}
    return sorted(set(a.fns[key]["calls"]) & names)


def fail_id(f):
    fn, _ = runverus.attribute(f)
    prim = [x["line"] for x in f["sites"] if x["primary"]] or [0]
    return fn if fn and "(lemmas)" not in fn and fn != "shim" else (fn, prim[0])


def again(v, path, a, r):
    """runs the failed modules with other solver seeds and more resources; v keeps the failures that no run discharges"""
    want = {fail_id(f) for f in v["failures"]}
    res = [None] * 3

    def one(k):
        res[k] = runverus.verus(path, a.out.map, a.fns, extra=["--smt-option", f"smt.random_seed={k + 1}"], timeout=240, rlimit=120, errors=8)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(3)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    r["runs"] += 3
    r["wall"] += max(x["wall"] for x in res)
    good = [x for x in res if not x["timeout"] and not x["compile"] and x["have_results"]]
    total = v["verified"] + v["errors"]
    for x in good:
        want &= {fail_id(f) for f in x["failures"]}
    if not good:
        return
    # report the failures of the best run that concern what is still undischarged
    best = min(good + [v], key=lambda x: len(x["failures"]))
    v["failures"] = [f for f in best["failures"] if fail_id(f) in want]
    v["errors"] = len({fail_id(f) for f in v["failures"]})
    v["verified"] = total - v["errors"]


def prove(prop, mods, wd, thorough):
    r = dict(ok=False, failures=[], demoted={}, verified=0, errors=0, smt_ms=0, wall=0.0, runs=0, note="", cmd="", fns={}, functions={},
             unattributed=[])
    try:
        data = assemble.extract(REPO, HERE + "/extract/target/debug/extract")
    except Exception as e:
        r["note"] = f"the extractor does not accept the source: {e}"
        return r, None
    data["files"] = [f for f in data["files"] if f["module"] in mods]
    r["renamed"] = data.get("renamed", [])
    demoted, dropped, undebug = {}, set(), False
    path = f"{wd}/assembled.rs"
    rlimit = 30
    r["inlined"] = [f"{h} in {c}" for h, c in data.get("inlined", [])]
    for rnd in range(12):
        a = assemble.Assembler(data, demoted=demoted, dropped=dropped)
        try:
            text = a.run()
        except Exception as e:
            r["note"] = f"assembly failed: {e}"
            return r, None
        if undebug:
            text = re.sub(r"shim_debug_unreached *\( *\)(?! *requires)", "()", text)
        open(path, "w").write(text)
        v = runverus.verus(path, a.out.map, a.fns, timeout=300, rlimit=rlimit, errors=8)
        r["runs"] += 1
        r["wall"] += v["wall"]
        r["cmd"] = f"verus assembled.rs --rlimit {rlimit} --multiple-errors 8"
        if v["timeout"]:
            r["note"] = "verifier timed out"
            return r, a
        if v["compile"] or not v["have_results"]:
            # a construct outside the verifier's subset: take the function out of the proof
            before = (len(demoted), len(dropped))
            for f in v["compile"]:
                owners = [s["own"] for s in f["sites"] if s["own"] and s["own"][0] in a.fns and s["primary"]] or \
                         [s["own"] for s in f["sites"] if s["own"] and s["own"][0] in a.fns]
                for o in owners[:1]:
                    k = o[0]
                    if k not in demoted and a.fns[k]["demoted"] is None:
                        demoted[k] = "not accepted by the verifier: " + f["msg"][:160]
                    elif not a.fns[k]["has_spec"]:
                        dropped.add(k)
            if (len(demoted), len(dropped)) == before:
                r["note"] = "the assembled file is not accepted by the verifier: " + (v["compile"][0]["msg"][:200] if v["compile"] else "no results")
                r["unattributed"] = [f["rendered"][:600] for f in v["compile"][:3]]
                return r, a
            continue
        if v["failures"]:
            # a proof found with any solver seed is a proof: ask again before believing a failure
            again(v, path, a, r)
        if not undebug and any("shim_debug_unreached" in f["rendered"] for f in v["failures"]):
            # a debug_assert! that does not follow from the contracts: left to the harness, which runs it
            undebug = True
            continue
        more = {}
        for f in v["failures"]:
            fn, cl = runverus.attribute(f)
            if fn not in a.fns or a.fns[fn]["demoted"] or fn in more:
                continue
            i = a.fns[fn]
            why = None
            if not i["has_spec"]:
                why = "no contract"
            elif "rlimit" in f["msg"] or "Resource limit" in f["msg"]:
                why = "the solver ran out of resources"
            elif new_helpers(a, fn):
                why = "calls a function that has no contract: " + ", ".join(new_helpers(a, fn))
            elif i.get("lost_hint"):
                why = "; ".join(x + " is gone" if x.startswith("proof anchor") else x for x in a.notes[fn])
            if why:
                more[fn] = why
        if more:
            demoted.update(more)
            continue
        break
    else:
        r["note"] = "too many rounds"
        return r, a
    r.update(verified=v["verified"], errors=v["errors"], smt_ms=v["smt_ms"], functions=v["functions"])
    r["ok"] = v["errors"] == 0 and not v["failures"]
    for f in v["failures"]:
        fn, text, hit = prop_hit(prop, a, f)
        r["failures"].append(dict(fn=fn, text=text, hit=hit, rendered=f["rendered"]))
    for k, i in a.fns.items():
        if i["demoted"] and i["demoted"] != "trusted":
            r["demoted"][k] = i["demoted"]
    if undebug:
        r["demoted"]["debug_assert!"] = "a debug assertion does not follow from the contracts"
    for k in dropped:
        r["demoted"][k] = "dropped (outside the verifier's subset, no contract)"
    return r, a


def vacuity(a, data_mods, prop, wd, limit):
    """`ensures false` must fail in every function of the property (a contradictory precondition or axiom would let it pass)."""
    keys = [k for k, i in a.fns.items() if i["has_spec"] and not i["demoted"] and prop in i["props"]]
    bad, n = [], 0
    lock = threading.Lock()
    it = iter(keys)
    data = json.dumps(a.data)

    def work(t):
        nonlocal n
        while time.time() - T0 < limit:
            with lock:
                k = next(it, None)
            if k is None:
                return
            b = assemble.Assembler(json.loads(data), demoted=a.demoted, dropped=a.dropped, vacuity=k)
            p = f"{wd}/vac{t}.rs"
            open(p, "w").write(b.run())
            m = k.split("::")[0]
            v = runverus.verus(p, b.out.map, b.fns, extra=["--verify-only-module", m, "--num-threads", "1"], timeout=120, rlimit=10, errors=1)
            hit = any(s["own"] and s["own"][0] == k for f in v["failures"] for s in f["sites"])
            with lock:
                n += 1
                if not hit and v["have_results"] and not v["compile"]:
                    bad.append(k)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(7)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return n, bad


def scan_assumptions(mods):
    out = []
    txt = open(HERE + "/contracts/shim.rs").read()
    n = len(re.findall(r"external_body", txt))
    out.append(f"contracts/shim.rs: {n} external_body items and {len(re.findall('admit|assume_specification|assume[(]', txt))} assume/admit stand for hashbrown 0.12 RawTable/HashSet, std Option/Hash/Borrow and the user's key types")
    for m in mods:
        for ext in ("rs", "vspec"):
            p = f"{HERE}/contracts/{m}.{ext}"
            if os.path.exists(p):
                t = open(p).read()
                k = len(re.findall(r"\badmit\(|\bassume\(|external_body|axiom", t))
                if k:
                    out.append(f"contracts/{m}.{ext}: {k} assumed item(s)")
    return out


ASSUME = [
    "Key types are lawful: Eq is an equivalence that agrees with the mathematical equality used in the contracts, equal values have equal hashes, Borrow agrees with Eq and Hash, Clone gives an equal value; a hasher is a function of the value (it may send every value to one hash).",
    "hashbrown 0.12.3 RawTable behaves as contracts/shim.rs states (find/get/insert/remove by (hash, predicate), iteration yields each entry once, raw pointers obtained from buckets stay valid while the table is not changed); checked at run time by the harness, not proved.",
    "The u64 id counters do not overflow (2^64 insertions); memory suffices; a drain is not leaked with mem::forget; user code (Hash, Eq, Clone, closures) does not panic.",
    "The extractor (extract/) drops docs, attributes and derives, rewrites raw-pointer/unsafe wrappers of RawTable and iterator plumbing to the shim's names, and leaves every statement of the function bodies in place; Verus, Z3 and rustc are trusted.",
]


def main():
    args = [x for x in sys.argv[1:] if not x.startswith("-")]
    if "--replay" in sys.argv:
        build()
        f = args[0]
        t = open(f).read()
        if "\ncase " in "\n" + t:
            m = re.match(r"# property (\S+)", t)
            sys.exit(subprocess.run([HARNESS, "replay", f] + ([m.group(1)] if m else [])).returncode)
        m = re.match(r"# property (\S+)", t)
        os.execv(sys.executable, [sys.executable, __file__, m.group(1)])
    prop = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    verbose = "--verbose" in sys.argv
    props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
    assert prop in props, prop
    wd = f"{BUILD}/{prop}.{os.getpid()}"
    os.makedirs(wd, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/replays", exist_ok=True)
    try:
        rc = decide(prop, thorough, wd)
    finally:
        if not verbose:
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def decide(prop, thorough, wd):
    build()
    mods, nocontract = modules(prop)
    syss = systems(prop)
    replay = f"{BUILD}/replays/{prop}.case"
    for e in (".case", ".obligation"):
        if os.path.exists(f"{BUILD}/replays/{prop}{e}"):
            os.remove(f"{BUILD}/replays/{prop}{e}")
    box = {}

    def proof():
        box["proof"] = prove(prop, mods, wd, thorough)
    th = threading.Thread(target=proof)
    th.start()
    cases, secs = (60_000, 40) if not thorough else (600_000, 240)
    s = search(prop, syss, cases, secs, wd + "/case", SEED)
    searches = [s]
    conf = conform(200_000 if thorough else 5_000)
    th.join()
    pr, a = box["proof"]
    mine = [f for f in pr["failures"] if f["hit"]]
    demoted = {k: w for k, w in pr["demoted"].items() if a is None or k not in a.fns or prop in a.fns[k]["props"] or not a.fns[k]["has_spec"]}
    whole = not pr["ok"] and not pr["failures"]          # no verdict from the verifier at all
    if not s["found"] and (mine or demoted or whole or pr["failures"]):
        # undecided by proof: look much harder for a failing input
        for k in range(4 if not thorough else 8):
            # a failed obligation of this property may show in a later operation first ("any")
            target = "any" if mine and k % 2 == 0 and syss != ["opt"] else prop
            s = search(target, syss, 400_000, 45, wd + "/case", SEED * 1000 + 7 + k)
            searches.append(s)
            if s["found"] or (not mine and k == 1 and not thorough):
                break
    vac = (0, [])
    if thorough and a is not None and pr["ok"]:
        vac = vacuity(a, mods, prop, wd, 800)
    viol = 0
    for pid, kid, what in known(prop):
        log(f"KNOWN-FINDING: property={pid} {what}")
    if s["found"]:
        shutil.copy(s["file"], replay)
        if mine:
            with open(replay, "a") as f:
                for x in mine[:5]:
                    f.write(f"# failed obligation in {x['fn']}: {x['text'][:300]}\n".replace("\n", " ") + "\n")
        log(f"{prop}: {s['msg']}")
        for x in mine[:5]:
            log(f"  failed obligation in {x['fn']}: {x['text'][:240]}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        viol = 1
    elif mine:
        rp = f"{BUILD}/replays/{prop}.obligation"
        with open(rp, "w") as f:
            f.write(f"# property {prop}\n# obligations of the current source that the verifier does not accept; no failing input found in {sum(x['stats'].get('cases', 0) for x in searches)} cases\n")
            for x in mine:
                f.write(f"\nobligation: {x['fn']}: {x['text']}\n{x['rendered']}\n")
        for x in mine[:5]:
            log(f"  failed obligation in {x['fn']}: {x['text'][:240]}")
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found", flush=True)
        viol = 1
    evidence(prop, thorough, pr, a, mods, nocontract, demoted, mine, searches, vac, viol, conf)
    if not conf["ok"]:
        print("ERROR an assumed contract does not hold of the real library:", conf["note"])
        return 3
    if vac[1]:
        print("ERROR vacuous contracts:", vac[1])
        return 4
    log(f"{prop}: verified {pr['verified']} errors {pr['errors']} bounded {len(demoted)}{' (' + pr['note'] + ')' if pr['note'] else ''}; "
        f"harness cases {sum(x['stats'].get('cases', 0) for x in searches)}; {time.time() - T0:.1f}s")
    for k, w in demoted.items():
        log(f"  bounded stand-in: {k}: {w}")
    return viol


def level(prop):
    m = json.load(open(HERE + "/MANIFEST.json"))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "exploration"


def evidence(prop, thorough, pr, a, mods, nocontract, demoted, mine, searches, vac, viol, conf):
    fns = []
    trusted = []
    if a is not None:
        for k, i in a.fns.items():
            if prop in i["props"]:
                row = dict(function=k, ensures_clauses=i["clauses"], lines=f"{i['line0']}-{i['line1']}")
                if i["demoted"] == "trusted":
                    trusted.append(k)
                    row["status"] = "assumed contract"
                elif i["demoted"]:
                    row["status"] = "bounded: " + i["demoted"]
                elif any(f["fn"] == k for f in mine):
                    row["status"] = "failed"
                else:
                    row["status"] = "proved"
                fns.append(row)
    fails = len({f["fn"] for f in pr["failures"]})
    nob = pr["verified"] + pr["errors"]
    cov = dict(
        obligations=nob, discharged=pr["verified"],
        obligation_unit="one verification condition set per function or lemma, as Verus counts them, over " + ", ".join(mods),
        checker_cmd=pr["cmd"], backend="Verus 0.2026.09.13 / Z3", solver_ms=pr["smt_ms"], verifier_wall_s=round(pr["wall"], 1), verifier_runs=pr["runs"],
        functions_under_contract=fns, proved=sum(f["status"] == "proved" for f in fns),
        bounded_stand_ins=demoted, helpers_inlined=pr.get("inlined", []), private_names_followed=pr.get("renamed", []), modules_without_contracts=nocontract,
        functions_failed=fails, trusted_base=scan_assumptions(mods) + [f"assumed contract: {k}" for k in trusted],
        slowest_functions=[dict(function=k, seconds=round(v["us"] / 1e6, 2)) for k, v in sorted(pr["functions"].items(), key=lambda x: -x[1]["us"])[:5]],
        evaluations=sum(x["stats"].get("cases", 0) + x["stats"].get("fixed", 0) for x in searches),
        operations=sum(x["stats"].get("ops", 0) for x in searches),
        distinct_nontrivial=sum(x["stats"].get("distinct", 0) for x in searches[:1]),
        rule="harness: random operation sequences (3 to 300 operations, 1 to 200 keys per side, hashers from good to constant) run on the real crate and compared after every operation with a model; non-trivial: more than 2 operations; distinct by text",
        samples=searches[0]["stats"].get("samples", [])[:2],
        harness_notes=[x["note"] for x in searches if x["note"]],
        failures_of_other_properties=searches[-1]["stats"].get("failures_of_other_properties", {}),
        vacuity_checked=vac[0], assumed_contracts_exercised=dict(conf, what="contracts assumed of hashbrown's RawTable, RawIter, RawDrain, Bucket and HashSet (contracts/shim.rs), evaluated on random histories of the real library; bounded"))
    if pr["note"]:
        cov["proof_note"] = pr["note"]
    if level(prop) == "other":
        cov["explanation"] = "see modules_without_contracts and functions_under_contract"
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=SEED, level=level(prop), coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - T0, 2), violations=viol)
    tmp = f"{HERE}/evidence/.{prop}.{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{HERE}/evidence/{prop}.json")


if __name__ == "__main__":
    main()
