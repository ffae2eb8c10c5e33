#!/usr/bin/env python3
"""Assemble the Verus file from the mechanically extracted sources and the contracts.

Nothing here edits executable code: the extractor's tokens are copied, and contract text is
put in the places it marked.  assemble() returns the text and a line map
(line -> owner function key, kind, tags) used to turn verifier failures into properties.
"""
import difflib, json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["utils", "optionals", "cycle_map", "partial_cycle_map", "group_map", "serde"]
TAG = re.compile(r"^\s*\[((?:[A-Z]\d{2,3}[ ,]*)+)\]\s?")


class Spec:
    def __init__(self, module, key, params):
        self.module, self.key, self.params = module, key, params
        self.props, self.ret, self.sections, self.flags = [], None, {}, set()
        self.used = False


def parse_vspec(path, module):
    specs, impls, order = {}, {}, []
    cur = sec = None
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("#!") or (ln.startswith("//") and cur is None):
            continue
        if ln.startswith("@@ fn "):
            m = re.match(r"@@ fn (.+?)\(([^()]*)\)\s*$", ln)
            key, params = m.group(1).replace(" ", ""), [x.strip() for x in m.group(2).split(",") if x.strip()]
            cur = Spec(module, key, params)
            assert key not in specs, key
            specs[key] = cur
            sec = None
        elif ln.startswith("@@ impl "):
            cur = Spec(module, ln[8:].replace(" ", ""), [])
            impls[cur.key] = cur
            sec = "text"
            cur.sections[sec] = []
        elif ln.startswith("@@"):
            raise SystemExit(f"{path}: {ln}")
        elif cur is None:
            if ln.strip():
                raise SystemExit(f"{path}: stray {ln}")
        elif ln[:1] not in ("", " ", "\t") and sec != "text":
            w = ln.split(None, 1)
            if w[0] == "props":
                cur.props = w[1].split()
            elif w[0] == "ret":
                cur.ret = w[1].strip()
            elif w[0] == "flag":
                cur.flags |= set(w[1].split())
            elif w[0] == "bounds":
                cur.sections["bounds"] = w[1].strip()
            elif w[0] in ("requires", "ensures", "proof", "end", "attrs", "ghost"):
                sec = w[0]
                cur.sections.setdefault(sec, [])
                if len(w) > 1:
                    cur.sections[sec].append("    " + w[1])
            elif w[0] in ("loop", "loop?", "loopstart", "loopghost", "closure", "before", "after"):
                m = re.match(r'(\S+)\s+(\d+|"[^"]*")\s*(?:"(.*)")?\s*$', ln)
                k = m.group(2)
                k = int(k) if k.isdigit() else k.strip('"')
                if w[0] == "loop?":  # used when there is such a loop
                    cur.sections[("optional", k)] = []
                sec = (w[0].rstrip("?"), k)
                cur.sections[sec] = []
                if m.group(3) is not None:
                    cur.sections[("fp",) + sec] = m.group(3)
            else:
                raise SystemExit(f"{path}: bad line {ln!r}")
        elif sec is not None:
            cur.sections[sec].append(ln)
    return specs, impls


def cparams(c):
    """the parameter names of a closure"""
    m = re.match(r"(?:move )?\|([^|]*)\|", c)
    return [x.split(":")[0].replace("mut ", "").strip() for x in (m.group(1).split(",") if m and "(" not in m.group(1) else [])]


def norm(s):
    return re.sub(r"\s+", "", s)


def align(old, new):
    """old index -> new index, order kept, the most similar texts together (only if the numbers differ)"""
    if len(old) == len(new):
        return {i: i for i in range(len(old))}
    r = [[difflib.SequenceMatcher(None, norm(a), norm(b)).ratio() for b in new] for a in old]
    best = [[(0, None)] * (len(new) + 1) for _ in range(len(old) + 1)]
    for i in range(len(old) - 1, -1, -1):
        for j in range(len(new) - 1, -1, -1):
            c = [(best[i + 1][j][0], (i + 1, j, False)), (best[i][j + 1][0], (i, j + 1, False))]
            if r[i][j] > 0.3:
                c.append((best[i + 1][j + 1][0] + r[i][j], (i + 1, j + 1, True)))
            best[i][j] = max(c, key=lambda x: x[0])
    m, i, j = {}, 0, 0
    while i < len(old) and j < len(new):
        a, b, hit = best[i][j][1]
        if hit:
            m[i] = j
        i, j = a, b
    return m


def renumber(sec, kind, pre, m):
    """the sections of the loops (closures) m maps move to their new numbers, the others go"""
    out = {}
    kinds = ("loop", "loopstart", "loopghost", "optional") if kind == "loop" else ("closure",)

    def rn(s):
        return re.sub(r"\b(%s)__(\d+)(?!\d)" % "|".join(pre), lambda x: f"{x.group(1)}__{m[int(x.group(2))]}" if int(x.group(2)) in m else x.group(0), s)
    for k, v in sec.items():
        if isinstance(v, list):
            v = [rn(x) for x in v]
        if isinstance(k, tuple) and isinstance(k[-1], int) and (k[-2] in kinds):
            if k[-1] not in m:
                continue
            k = k[:-1] + (m[k[-1]],)
        elif isinstance(k, tuple) and isinstance(k[-1], str):
            k = k[:-1] + (rn(k[-1]),)
        out[k] = v
    return out


class Out:
    def __init__(self):
        self.lines, self.map = [], {}

    def add(self, text, owner=None, kind=None, tags=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if owner:
                self.map[len(self.lines)] = (owner, kind, tags)

    def text(self):
        return "\n".join(self.lines) + "\n"


def extract(repo, binpath):
    files = [f for m in MODULES for f in [f"{repo}/src/{m}.rs", f"{repo}/src/{m}/mod.rs"] if os.path.exists(f)]
    known = []
    for m in MODULES:
        v = f"{HERE}/contracts/{m}.vspec"
        if os.path.exists(v):
            known += [f"{m} {x}" for k in parse_vspec(v, m)[0] for x in (k.split("::")[-1], k)]
    p = subprocess.run([binpath] + files, capture_output=True, text=True, env=dict(os.environ, VV_KNOWN="\n".join(known), VV_SRC=repo + "/src", VV_DECLS=HERE + "/contracts/decls.json"))
    if p.returncode != 0:
        raise RuntimeError("extractor: " + p.stderr[-500:])
    d = json.loads(p.stdout)
    if "error" in d:
        raise RuntimeError("extractor: " + d["error"])
    return d


def fnkeys(item, f):
    if item is None:
        return ["::" + f["name"]]
    ks = []
    if item["trait"]:
        ks.append(f"{item['self']}:{item['trait_full']}::{f['name']}")
    elif item.get("spec_suffix"):
        ks.append(f"{item['self']}:{item['spec_suffix']}::{f['name']}")
    ks.append(f"{item['self']}::{f['name']}")
    return [k.replace(" ", "") for k in ks]


class Assembler:
    def __init__(self, data, contracts=HERE + "/contracts", demoted=(), dropped=(), vacuity=None):
        self.data, self.cdir = data, contracts
        self.demoted, self.dropped = dict(demoted), set(dropped)
        self.vacuity = vacuity
        self.specs, self.impls, self.prelude = {}, {}, {}
        for m in MODULES:
            p = f"{contracts}/{m}.vspec"
            self.specs[m], self.impls[m] = parse_vspec(p, m) if os.path.exists(p) else ({}, {})
            p = f"{contracts}/{m}.rs"
            self.prelude[m] = open(p).read() if os.path.exists(p) else ""
        p = f"{contracts}/names.json"
        self.names = json.load(open(p)) if os.path.exists(p) else {}
        self.notes = {}      # fn key -> list of lost anchors
        self.fns = {}        # fn key -> dict(info)
        self.out = Out()
        self.inlined = {}    # caller name -> helpers whose body the extractor put in place of the call
        for h, c in data.get("inlined", []):
            self.inlined.setdefault(c, set()).add(h)
        called = set()
        for f in data["files"]:
            for it in f["items"]:
                for g in it.get("fns", []) + ([it["fn"]] if "fn" in it else []):
                    called |= set(g["calls"])
        self.gone = {h for h, _ in data.get("inlined", [])} - called

    def run(self):
        o = self.out
        o.add("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_unsafe, dead_code, non_snake_case, deprecated, unused_braces, unreachable_patterns, unused_labels)]")
        o.add("use vstd::prelude::*;\nverus! {\n")
        o.add("pub mod shim {\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::pervasive::*;")
        for l in open(f"{self.cdir}/shim.rs").read().split("\n"):
            o.add(l, "shim", "shim", ())
        o.add("}")
        for f in self.data["files"]:
            m = f["module"]
            deps = {"utils": "", "optionals": "use super::utils::*;"}.get(m, "use super::utils::*; use super::optionals::*; use super::optionals::OptionalPair::*;")
            if m == "serde":
                deps += " use super::cycle_map::*;"
            if m == "partial_cycle_map" :
                deps += " "
            o.add(f"pub mod {m} {{\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::pervasive::*;\nuse super::shim::*;\nuse core::marker::PhantomData;\n{deps}\nbroadcast use {{{', '.join(['tabm::tab', 'seqm::seqs'] + re.findall(r'^// BROADCAST (.*)$', self.prelude[m], re.M))}}};")
            if m == "optionals":
                o.add("pub use OptionalPair::*;")
            for l in self.prelude[m].split("\n"):
                o.add(l, f"{m}.rs(lemmas)", "lemma", ())
            for it in f["items"]:
                self.item(m, it)
            o.add("}")
        o.add("}\nfn main() {}")
        return o.text()

    def item(self, m, it):
        o = self.out
        if it["kind"] in ("struct", "enum"):
            sp = self.impls[m].get("struct:" + it["name"])
            attrs = "\n".join(sp.sections["text"]) if sp else ""
            if it["kind"] == "enum" and "PartialEq" in " ".join(it["derives"]):
                # the derive is written out in the module's prelude (same code as rustc's expansion)
                attrs += "\n"
            o.add(attrs + "\n" + it["text"])
        elif it["kind"] == "type":
            o.add(it["text"])
        elif it["kind"] == "fn":
            self.fn(m, None, it["fn"])
        elif it["kind"] == "impl":
            key = it["self"] + (":" + it["trait_full"] if it["trait"] else "")
            sp = self.impls[m].get(key)
            if sp and "skip" in "".join(sp.sections["text"][:1]):
                return
            if it["trait"] == "From" and not it["fns"]:
                return
            if it["trait"] == "Eq":
                return
            o.add(it["header"] + " {")
            if sp:
                o.add("\n".join(sp.sections["text"]))
            if not it["inherent"]:
                for n, t in it["assoc"]:
                    o.add(f"    type {n} = {t};")
            for f in it["fns"]:
                self.fn(m, it, f)
            o.add("}")

    def fn(self, m, it, f):
        o = self.out
        f["params"] = ["old__" if p == "old" else p for p in f["params"]]
        sp = None
        for k in fnkeys(it, f):
            if k in self.specs[m]:
                sp = self.specs[m][k]
                break
        key = m + "::" + (sp.key if sp else fnkeys(it, f)[0]).lstrip(":")
        if key in self.dropped or (sp and "drop" in sp.flags) or (not sp and f["name"] in self.gone):
            return
        lost, tentative = [], []
        info = dict(key=key, props=sp.props if sp else [], line0=f["line0"], line1=f["line1"], module=m,
                    has_spec=bool(sp), calls=f["calls"], name=f["name"], clauses=0, vstart=len(o.lines) + 1,
                    trait=bool(it and it["trait"] and not it["inherent"]), src=f["src"])
        self.fns[key] = info
        text = f["text"]
        sub = {}
        if sp:
            sp.used = True
            if len(sp.params) == len(f["params"]):
                sub = {a: b for a, b in zip(sp.params, f["params"]) if a != b}
            else:
                lost.append("parameter list changed")

        def rn(s):
            for a, b in sub.items():
                s = re.sub(r"(?<![\w.])" + re.escape(a) + r"(?!\w)", b, s)
            return s
        sec = dict(sp.sections) if sp else {}
        for k in [x[1] for x in sec if isinstance(x, tuple) and x[0] == "optional"]:
            if k >= len(f["loops"]):
                sec = {x: v for x, v in sec.items() if not (isinstance(x, tuple) and x[-1] == k and x[-2] in ("optional", "loop", "loopstart", "loopghost"))}
            else:
                tentative.append(f"loop {k} is new")
        base = self.names.get(key) if sp else None
        # loops and closures that came or went: the contract's go to those that look most like them
        if sp:
            nl = sorted(k[1] for k in sec if isinstance(k, tuple) and k[0] == "loop")
            if nl == list(range(len(nl))) and len(f["loops"]) != len(nl):
                m = align([sec.get(("fp", "loop", k), "") for k in nl], f["loops"])
                tentative += [f"loop {k} is gone" for k in nl if k not in m] + [f"loop {j} is new" for j in range(len(f["loops"])) if j not in m.values()]
                sec = renumber(sec, "loop", ("it", "acc"), m)
            if base and len(f["closures"]) != len(base["clos"]) and any(isinstance(k, tuple) and k[0] == "closure" for k in sec):
                m = align(base["clos"], f["closures"])
                tentative.append("the closures are " + "; ".join(f["closures"]))
                sec = renumber(sec, "closure", ("p",), m)
                base = dict(base, clos=[next((base["clos"][i] for i in m if m[i] == j), c) for j, c in enumerate(f["closures"])])
        # locals and closure parameters that have a new name
        closub = {}
        if base:
            alltext = "\n".join("\n".join([k[1]] if isinstance(k, tuple) and isinstance(k[1], str) else []) + "\n" + "\n".join(v) for k, v in sec.items() if isinstance(v, list))
            cur = {n for n, _ in f["lets"]} | set(f["params"])
            old = {n for n, _ in base["lets"]}
            free = [(n, i) for n, i in f["lets"] if n not in old]
            for n, i in base["lets"]:
                if n in cur or n in sub or not re.search(r"(?<![\w.])%s(?!\w)" % re.escape(n), alltext):
                    continue
                best = max(free, key=lambda c: difflib.SequenceMatcher(None, i, c[1]).ratio(), default=None)
                if best and (len(free) == 1 or difflib.SequenceMatcher(None, i, best[1]).ratio() > 0.5):
                    sub[n] = best[0]
                    free.remove(best)
                    tentative.append(f"local {n} is now {best[0]}")
            if len(f["closures"]) > len(base["clos"]):
                tentative.append("a closure without a contract")
            for k in range(min(len(base["clos"]), len(f["closures"]))):
                a, b = cparams(base["clos"][k]), cparams(f["closures"][k])
                closub[k] = {x: y for x, y in zip(a, b) if x != y} if len(a) == len(b) else {}
        # anchors
        for k in list(sec):
            if isinstance(k, tuple) and k[0] in ("loop", "closure"):
                have = f["loops"] if k[0] == "loop" else f["closures"]
                if k[1] >= len(have):
                    lost.append(f"{k[0]} {k[1]} is gone")
                else:
                    fp = sec.get(("fp",) + k)
                    if fp is not None and norm(fp) != norm(have[k[1]]) and not norm(have[k[1]]).startswith(norm(fp)):
                        why = f"{k[0]} {k[1]} is now `{have[k[1]]}`"
                        tentative.append(why)  # try the contract on the new one; a failure is a lost contract
        if sp:
            nl = sum(1 for k in sec if isinstance(k, tuple) and k[0] == "loop")
            if len(f["loops"]) > nl and not any(x.startswith("loop ") and x.endswith("is new") for x in tentative):
                lost.append("a loop without an invariant")
        if not sp:
            lost.append("no contract")
        demote = key in self.demoted or bool(sp and lost) or (sp and "trusted" in sp.flags)
        info["demoted"] = self.demoted.get(key) or ("; ".join(lost) if sp and lost else None) or ("trusted" if sp and "trusted" in sp.flags else None)
        if f["name"] in self.inlined and sp:
            tentative.append("helper inlined: " + ", ".join(sorted(self.inlined[f["name"]])))
        self.notes[key] = lost + tentative
        if tentative:
            info["lost_hint"] = True
        # return type
        if f["has_ret"]:
            m2 = re.search(r"__RET\s*!\s*\(", text)
            i = m2.end()
            d, j = 1, i
            while d:
                d += {"(": 1, ")": -1}.get(text[j], 0)
                j += 1
            ty = rty = text[i:j - 1].strip()
            rep = f"({sp.ret}: {ty}) " if sp and sp.ret else ty + " "
            text = text[:m2.start()] + rep + text[j:]
        # signature | body
        m3 = re.search(r"\{\s*__FNSPEC\s*!\s*\(\s*\)\s*;", text)
        sig, body = text[:m3.start()], text[m3.end():]
        if it and it["trait"] and not it["inherent"]:
            sig = re.sub(r"^\s*pub ", "", sig)
        attrs = ["#[verifier::exec_allows_no_decreases_clause]"] if f["loops"] else []
        if demote:
            attrs.append("#[verifier::external_body]")
        for l in sec.get("attrs", []):
            attrs.append(l)
        if attrs:
            o.add("\n".join(attrs), key, "attr", ())
        o.add(sig.rstrip(), key, "sig", ())
        for s in ("requires", "ensures"):
            ls = [l for l in sec.get(s, []) if l.strip()]
            if s == "ensures" and self.vacuity == key:
                ls = ["    false,"]
            if not ls:
                continue
            o.add(f"  {s}", key, s, ())
            tags = tuple(sp.props)
            for l in ls:
                t = TAG.match(l)
                if t:
                    tags = tuple(t.group(1).replace(",", " ").split())
                    l = l[t.end():]
                    info["clauses"] += 1 if s == "ensures" else 0
                if norm(l) == "[*]":
                    continue
                o.add("    " + rn(l), key, s, tags)
        if demote:
            o.add("{ unimplemented!() }", key, "body", ())
            info["vend"] = len(o.lines)
            return
        if "proof" in sec:
            body = "\n/*P*/proof {\n" + rn("\n".join(sec["proof"])) + "\n}/*P*/\n" + body
        if "ghost" in sec:
            body = "\n/*P*/" + rn("\n".join(sec["ghost"])) + "/*P*/\n" + body
        insub = {}
        # a loop written out where the contract has an iterator chain (or the other way round): name its parts
        for k in [x[1] for x in sec if isinstance(x, tuple) and x[0] == "loop"]:
            mk = re.search(r"__LOOPSPEC\s*!\s*\(\s*%d(?:usize)?\s*\)\s*;" % k, body)
            if not mk:
                continue
            after = body[mk.end():]
            mi = re.search(r"let\s+(?:mut\s+)?(\w+)\s*(?::[^=;]+)?=\s*\{\s*let\s+mut\s+it__%d\s*=[^;]*;\s*let\s+mut\s+acc__%d\b" % (k, k), body)
            if mi and f"acc__{k}" not in "\n".join(sec[("loop", k)]):
                # the contract's loop pushes onto a named local, the code now collects into it
                insub[k] = (mi.group(1), f"acc__{k}")
            elif base:
                # a local of the contract that is only declared after the loop: what the loop uses has another name now
                inv = "\n".join(sec[("loop", k)])
                old = {n for n, _ in base["lets"]}
                for n, i in base["lets"]:
                    if n in sub or n in f["params"] or not re.search(r"(?<![\w.])%s(?!\w)" % re.escape(n), inv):
                        continue
                    d = re.compile(r"\blet\s+(?:mut\s+)?%s\b(?!\s*=\s*\{)" % re.escape(n))
                    if d.search(body[:mk.start()]):
                        continue
                    free = [c for c in f["lets"] if c[0] not in old and re.search(r"\blet\s+(?:mut\s+)?%s\b" % re.escape(c[0]), body[:mk.start()])]
                    best = max(free, key=lambda c: difflib.SequenceMatcher(None, i, c[1]).ratio(), default=None)
                    if best and difflib.SequenceMatcher(None, i, best[1]).ratio() > 0.8:
                        insub[k] = (n, best[0])
                        self.notes[key].append(f"local {n} is {best[0]} in loop {k}")
                        info["lost_hint"] = True
            if f"it__{k}" not in body:
                m4 = re.match(r"\s*(?:match|if)\s+!?\s*(\w+)\s*\.\s*(?:next|pop)\s*\(\s*\)", after)
                if m4 and m4.group(1) != "self":
                    sub[f"it__{k}"] = m4.group(1)
            h0, h1 = norm(sec.get(("fp", "loop", k), "")), norm(f["loops"][k]) if k < len(f["loops"]) else ""
            if (h0[:3], h1[:3]) in (("all", "any"), ("any", "all")):
                sub[f"acc__{k}"] = f"(!acc__{k})"
            if f"acc__{k}" not in body:
                inv = "\n".join(sec[("loop", k)])
                if f"acc__{k}." in inv:
                    m4 = re.search(r"(\w+)\s*\.\s*(?:push|insert|insert_left|insert_right|push_one)\s*\(", after)
                elif f"acc__{k} +" in inv:
                    m4 = re.search(r"(\w+)\s*\+=\s*1\b", after)
                elif "Collect::" in inv:
                    m4 = re.search(r"(\w+)\s*\.\s*(?:push|insert|push_one)\s*\(", after)
                else:
                    m4 = re.match("()", "")
                if m4:
                    sub[f"acc__{k}"] = m4.group(1) or "true"

        # loops
        def loop(mm):
            k = int(mm.group(1))
            s = "loop"
            if ("loopghost", k) in sec:
                s = "/*P*/" + rn("\n".join(sec[("loopghost", k)])) + "/*P*/\nloop"
            if ("loop", k) in sec:
                inv = rn("\n".join(sec[("loop", k)]))
                if k in insub:
                    inv = re.sub(r"(?<![\w.])%s\b" % insub[k][0], insub[k][1], inv)
                s += "\n/*L*/" + inv + "\n"
            s += "{"
            if ("loopstart", k) in sec:
                s += "\n" + rn("\n".join(sec[("loopstart", k)])) + "\n"
            return s
        body = re.sub(r"loop\s*\{\s*__LOOPSPEC\s*!\s*\(\s*(\d+)(?:usize)?\s*\)\s*;", loop, body)

        def clo(mm):
            k = int(mm.group(1))
            auto = (f.get("clospec") or [])[k:k + 1]
            auto = f" -> (r__: _) ensures ({auto[0]}) " if auto and auto[0] else ""
            if ("closure", k) in sec:
                c = " ".join(x.strip() for x in sec[("closure", k)])
                one = cparams(f["closures"][k])
                if len(one) == 1 and one[0] and f"p__{k}_" not in text:
                    c2 = re.sub(r"\bp__%d_0\b" % k, one[0], c)
                    if c2 != c:
                        self.notes[key].append(f"closure {k} takes its parameter as {one[0]}")
                        info["lost_hint"] = True
                    c = c2
                if auto and re.search(r"\bp__%d_\d" % k, c) and f"p__{k}_" not in text:
                    self.notes[key].append(f"closure {k} takes other parameters")
                    info["lost_hint"] = True
                    return auto + "{"
                for x, y in closub.get(k, {}).items():
                    c = re.sub(r"(?<![\w.])%s(?!\w)" % re.escape(x), y, c)
                return rn(c) + " {"
            return auto + "{"
        body = re.sub(r"\{\s*__CLOSPEC\s*!\s*\(\s*(\d+)(?:usize)?\s*\)\s*;", clo, body)
        for k in list(sec):
            if isinstance(k, tuple) and k[0] in ("before", "after"):
                # anchor: token prefix of a line of the extracted body
                lines = body.split("\n")
                pat = norm(rn(k[1]))
                nth = 0
                idx = [i for i, l in enumerate(lines) if norm(l).startswith(pat)]
                if len(idx) != 1:
                    self.notes[key].append(f"proof anchor `{k[1]}`")
                    info["lost_hint"] = True
                    continue
                i = idx[0] + (1 if k[0] == "after" else 0)
                lines[i:i] = [rn("\n".join(sec[k]))]
                body = "\n".join(lines)
        if "end" in sec:  # where the function falls off its end
            k = body.rstrip().rindex("}")
            hint = " /*P*/proof {\n" + rn("\n".join(sec["end"])) + "\n}/*P*/\n"
            if f["has_ret"]:
                body = f"let {sp.ret}: {rty} = {{" + body[:k] + "};" + hint + sp.ret + "\n}"
            else:
                body = body[:k] + ";" + hint + "}"
        o.add("{ " + body, key, "body", ())
        info["vend"] = len(o.lines)


def main():
    only = None
    if "-m" in sys.argv:
        i = sys.argv.index("-m")
        only = sys.argv[i + 1].split(",")
        del sys.argv[i:i + 2]
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    data = extract(repo, HERE + "/extract/target/debug/extract")
    if only:
        data["files"] = [f for f in data["files"] if f["module"] in only]
    a = Assembler(data)
    t = a.run()
    out = sys.argv[2] if len(sys.argv) > 2 else "/tmp/x/all.rs"
    open(out, "w").write(t)
    for m in only or MODULES:
        for k, s in a.specs[m].items():
            if not s.used:
                print("unused contract", m, k)
    for k, n in a.notes.items():
        if n and ("-v" in sys.argv or n != ["no contract"]):
            print("note", k, n)


if __name__ == "__main__":
    main()
