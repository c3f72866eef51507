#!/usr/bin/env python3
"""Decides one property of /repo's current sources: check.py C01 [--save-anchors]

1. tools/extract turns /repo/src into one Verus crate: the functions' own bodies with the contracts of
   contracts/*.vc attached, over the specification in spec/.
2. Verus discharges every obligation, function by function. A failed obligation is attributed to the
   properties its function's contract carries.
3. tools/diff looks for an input on which the real decoder and the reference decoder disagree: the
   counterexample of a failed obligation, and the bounded stand-in for a function out of reach.
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("WADEC_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools", "driver"))
import literals
from props import props_of

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
VERUS = shutil.which("verus") or "/usr/local/bin/verus"
DEADLINE = T0 + (780 if TIER == "quick" else 3000)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def run(cmd, timeout, **kw):
    """(rc, stdout, stderr); rc None on timeout. The whole process group dies with it."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, env=ENV, **kw)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


# ------------------------------------------------------------------ building the tools
def build_extract():
    d = os.path.join(VERIF, "tools", "extract")
    rc, o, e = run(["cargo", "build", "--offline", "--release", "--quiet"], 600, cwd=d)
    exe = os.path.join(d, "target", "release", "extract")
    return exe if rc == 0 and os.path.exists(exe) else None


class Diff:
    """The differential runner, built against /repo's working tree."""

    def __init__(self, work):
        self.work = work
        self.exe = None
        self.err = None
        self.mism = []
        self.stats = []
        self.runs = 0
        self.new = ([], [])

    def build(self):
        d = os.path.join(VERIF, "tools", "diff")
        src = d
        if REPO != "/repo":  # scratch copies used while developing
            src = os.path.join(self.work, "diff")
            shutil.copytree(d, src, ignore=shutil.ignore_patterns("target"))
            t = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
            open(os.path.join(src, "Cargo.toml"), "w").write(t)
        tgt = os.environ.get("WADEC_DIFF_TARGET", os.path.join(d, "target"))
        # never trust time stamps: the crate under test is always recompiled
        run(["cargo", "clean", "--offline", "--release", "--quiet", "-p", "wadec", "-p", "wadec-diff", "--target-dir", tgt], 120, cwd=src)
        rc, o, e = run(["cargo", "build", "--offline", "--release", "--quiet", "--target-dir", tgt], 700, cwd=src)
        exe = os.path.join(tgt, "release", "wadec-diff")
        if rc == 0 and os.path.exists(exe):
            self.exe = os.path.join(self.work, "wadec-diff")
            shutil.copy(exe, self.exe)
        else:
            self.err = (e or "timed out")[-3000:]
        self.new = literals.write(os.path.join(REPO, "src"), os.path.join(d, "base_literals.txt"), os.path.join(self.work, "lits"))

    def go(self, secs, seed, shards):
        if not self.exe:
            return
        self.runs += 1
        out = os.path.join(self.work, f"diff-{self.runs}")
        rc, o, e = run([self.exe, "run", str(secs), str(seed), os.path.join(self.work, "lits"), out, str(shards)], secs + 260)
        for l in (o or "").splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "mismatch" in d:
                self.mism.append(d["mismatch"])
            elif "stats" in d:
                self.stats.append(d["stats"])
        if not o and os.path.isdir(out):  # the runner itself was stopped: what its children wrote is still there
            for f in sorted(os.listdir(out)):
                if f.endswith(".jsonl"):
                    for l in open(os.path.join(out, f), errors="replace"):
                        try:
                            d = json.loads(l)
                        except ValueError:
                            continue
                        if "mismatch" in d:
                            self.mism.append(d["mismatch"])
        shutil.rmtree(out, ignore_errors=True)

    def demo(self, which, n):
        rc, o, e = run([self.exe, "demo", which, str(n)], 60)
        return rc, o


# ------------------------------------------------------------------ the proof
class Proof:
    def __init__(self, work, extract, why):
        self.work, self.extract = work, extract
        self.why_spec = why  # the C15 clauses and spec/why.rs are part of the crate
        self.out = os.path.join(work, "wadec_verus.rs")
        self.rep = {}
        self.external = []  # function keys taken out of the verifier's reach, with the reason
        self.why = {}
        self.failed = []  # {key, msg, text, clause, kind, props}
        self.undecided = {}  # key -> reason
        self.fatal = None
        self.units = {}  # verification unit -> (ok, mode, ms)
        self.cmd = ""
        self.retries = 0
        self.why_lost = None
        self.smt_ms = 0
        self.attempts = 0

    src, cdir, flags, at_least = "src", "contracts", [], 200

    def extract_once(self):
        cmd = [self.extract, os.path.join(REPO, self.src), os.path.join(VERIF, self.cdir), self.out, os.path.join(self.work, "report.json"), *self.flags]
        for k in self.external:
            cmd += ["--external", k]
        if not self.why_spec:
            cmd.append("--no-why")
        rc, o, e = run(cmd, 120)
        if rc != 0:
            self.fatal = "extraction failed: " + (e or "")[-1500:]
            return False
        self.rep = json.load(open(os.path.join(self.work, "report.json")))
        self.lines = open(self.out).read().split("\n")
        self.owner = [None] * (len(self.lines) + 2)
        cur = None
        for i, l in enumerate(self.lines, 1):
            s = l.strip()
            if s.startswith("//@@BEGIN "):
                cur = s[10:]
            self.owner[i] = cur
            if s.startswith("//@@END"):
                cur = None
        self.fn = {f["key"]: f for f in self.rep["functions"]}
        return True

    def verus(self, extra=(), timeout=None):
        cmd = [VERUS, "--edition", "2024", "--multiple-errors", "20", "--output-json", "--time-expanded", "--error-format=json", *extra, self.out]
        if not extra:
            self.cmd = " ".join(cmd)
        left = DEADLINE - time.time() - 60
        rc, o, e = run(cmd, min(timeout or 600, max(30, left)), cwd=self.work)
        diags = []
        for l in (e or "").splitlines() + (o or "").splitlines():
            if l.startswith('{"$message_type"'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        res = None
        i = (o or "").find("\n{\n")
        i = 0 if (o or "").startswith("{\n") else i
        if i >= 0 and o:
            try:
                res = json.loads(o[i:])
            except ValueError:
                # diagnostics may precede or follow the summary
                try:
                    res = json.JSONDecoder().raw_decode(o[i:].lstrip())[0]
                except ValueError:
                    res = None
        return rc, res, [d for d in diags if d["level"] == "error"], (e or "")[-2000:]

    def own(self, n):
        return self.owner[n] if 0 < n < len(self.owner) else None

    def locate(self, d):
        """the extracted function a diagnostic is about"""
        for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
            k = self.own(s["line_start"])
            if k and not k.startswith("spec/"):
                return k
        return None

    def prove(self):
        for self.attempts in range(1, 13):
            if not self.extract_once():
                return
            rc, res, errs, tail = self.verus()
            vr = (res or {}).get("verification-results", {})
            times = (res or {}).get("times-ms", {})
            mods = times.get("smt", {}).get("smt-run-module-times", [])
            checked = sum(len(m.get("function-breakdown", [])) for m in mods)
            if res is not None and checked >= self.at_least and not vr.get("encountered-vir-error"):
                self.account(mods, times)
                self.classify(errs)
                return
            if rc is None:
                if self.why_spec:
                    self.drop_why("the verifier did not finish in time with the C15 clauses")
                    continue
                self.fatal = "the verifier did not finish in time"
                return
            # not a verification failure: something the verifier cannot read. Take those functions out of its reach.
            bad = {}
            for d in errs:
                k = self.locate(d)
                if k in self.fn and not self.fn[k]["external"]:
                    bad.setdefault(k, d["message"])
                elif k and (k in self.rep.get("helpers", [])):
                    # a helper made for a closure: its users go
                    for f in self.rep["functions"]:
                        if k in f["calls"] and not f["external"]:
                            bad.setdefault(f["key"], d["message"])
            if not bad and self.why_spec:
                self.drop_why("the verifier cannot read spec/why.rs against these types: " + "; ".join(d["message"] for d in errs)[:300])
                continue
            if not bad:
                self.fatal = "the verifier cannot read the extracted crate: " + "; ".join(d["message"] for d in errs)[:1500] + tail[-500:]
                return
            for k, m in bad.items():
                self.external.append(k)
                self.why[k] = m[:300]
            log("outside the verifier's reach:", self.why)
        self.fatal = "too many functions outside the verifier's reach"

    def drop_why(self, reason):
        """the figures of errors are left to the bounded check; everything else is still proved"""
        self.why_spec = False
        self.why_lost = reason
        log("C15 clauses dropped:", reason)

    def account(self, mods, times):
        for m in mods:
            for f in m.get("function-breakdown", []):
                u = self.units.setdefault(f["function"].split("::", 1)[-1], {"ok": True, "mode": f.get("mode:", "?"), "ms": 0})
                u["ok"] = u["ok"] and f["success"]
                u["ms"] += f["time"]
        self.smt_ms = times.get("smt", {}).get("total", 0)
        self.total_ms = times.get("total", 0)

    def anchored(self, k, anchors):
        """does the function still have what its contract's proof text is attached to?"""
        f = self.fn.get(k)
        a = anchors.get(k)
        if f is None:
            return None if a is None else None  # helper functions
        if not f["contracted"]:
            return "no contract names this function"
        if f["notes"]:
            return "extraction: " + "; ".join(f["notes"])[:200]
        if a is not None and a["shape"] != f["shape"]:
            return f"its loops are no longer those the invariants were written for ({a['shape'] or 'none'} -> {f['shape'] or 'none'})"
        for c in f["calls"]:
            g = self.fn.get(c)
            if g is not None and not g["contracted"]:
                return f"it calls {c}, which no contract covers"
        if a is not None:
            gone = [c for c in a["calls"] if c not in f["calls"]]
            new = [c for c in f["calls"] if c not in a["calls"]]
            if any(c not in anchors and c not in self.fn for c in new):
                return "it calls functions outside the extraction"
            del gone
        return None

    def kind(self, d):
        """panic | alloc | clause"""
        m = d["message"]
        if re.search(r"arithmetic|overflow|underflow|division|index|bounds|unreachable|decreases|terminat", m):
            return "panic"
        if "precondition" in m:
            for s in d["spans"]:
                k = self.own(s["line_start"])
                t = " ".join(x["text"] for x in s.get("text", []))
                if "ALLOC_CAP" in t and "requires" in t:
                    return "alloc"
                if s["label"] and "failed precondition" in s["label"] and k and not k.startswith("spec/"):
                    return "clause"
            return "panic"
        return "clause"

    def classify(self, errs):
        anchors = json.load(open(os.path.join(VERIF, self.cdir, "anchors.json")))
        byfn = {}
        for d in errs:
            if not d["spans"]:
                continue
            k = self.locate(d)
            if k is None:
                # a lemma of the specification: nothing in it depends on a function body, only on types
                byfn.setdefault("spec", []).append(d)
                continue
            byfn.setdefault(k, []).append(d)
        self.lost = {}
        for k, ds in byfn.items():
            if k == "spec":
                self.undecided["spec"] = "a lemma of the specification no longer holds for the crate's types: " + ds[0]["message"][:200]
                continue
            lost = self.anchored(k, anchors)
            rl = [d for d in ds if "esource limit" in d["message"] or "rlimit" in d["message"] or "timed out" in d["message"]]
            if k in self.fn or k in self.rep.get("helpers", []):
                if self.retry(k):
                    self.retries += 1
                    continue
            if lost:
                self.undecided[k] = lost
                continue
            if rl and len(rl) == len(ds):
                self.undecided[k] = "the solver gave up within its resource limit"
                continue
            for d in ds:
                if d in rl:
                    continue
                tags = set()
                for s in d["spans"]:
                    for n in range(s["line_start"], min(s["line_end"], s["line_start"] + 2) + 1):
                        if n < len(self.lines) and (not s["is_primary"] or True):
                            mm = re.search(r"//@((?:C\d\d ?)+)", self.lines[n - 1])
                            if mm and self.own(n) and s["label"] and "failed" in s["label"]:
                                tags |= set(mm.group(1).split())
                kd = self.kind(d)
                f = self.fn.get(k, {"file": ""})
                ps = sorted(tags) if tags else ["C13"] if kd == "panic" else ["C16"] if kd == "alloc" else props_of(k, f.get("file", ""))
                self.failed.append({"key": k, "msg": d["message"], "kind": kd, "props": ps, "text": d.get("rendered", "")[:2500], "file": f.get("file", ""), "line": f.get("line", 0)})
        # what is outside the reach, and what relies on it, is decided by the bounded check only
        for k in self.external:
            self.undecided[k] = "outside the verifier's reach: " + self.why.get(k, "")
        called = {c for f in self.fn.values() if not f["external"] for c in f["calls"]}
        for k, f in self.fn.items():
            if k in self.rep.get("inlined", []) and k not in called:
                continue  # verified as part of its callers
            if not f["contracted"] and k not in self.undecided:
                self.undecided[k] = "no contract names this function"
            elif f["external"] and k not in self.undecided:
                self.undecided[k] = "outside the extraction's reach"
        if self.why_lost:
            self.undecided["spec/why.rs"] = self.why_lost
        for k in anchors:
            if k not in self.fn and k not in self.rep.get("helpers", []):
                self.undecided[k] = "the function no longer exists"

    def retry(self, k):
        """another solver seed and a larger limit, for this function alone"""
        mod = None
        for n, o in enumerate(self.owner):
            if o == k:
                mod = self.module_at(n)
                break
        if mod is None or time.time() > DEADLINE - 240 or len(self.failed) > 12:
            return False
        for seed in (11, 23):
            rc, res, errs, _ = self.verus(["--verify-only-module", mod, "--rlimit", "40", "--smt-option", f"smt.random_seed={seed}"], 150)
            if res and not any(self.locate(d) == k for d in errs) and res.get("verification-results", {}).get("verified", 0) > 0:
                log("discharged on a retry:", k)
                return True
            if seed == 11 and errs and not any("esource" in d["message"] or "rlimit" in d["message"] for d in errs if self.locate(d) == k):
                # a definite failure under another seed too
                return False
        return False

    def module_at(self, n):
        """module path of an output line"""
        path, depth = [], []
        for l in self.lines[:n]:
            m = re.match(r"pub mod (\w+) \{$", l)
            if m:
                path.append(m.group(1))
                depth.append(0)
                continue
            if l == "}" and path:
                # module bodies are printed flush left; function bodies end with a flush-left brace too
                pass
        # module text is emitted by the extractor as 'pub mod X {' ... ; track with brace counting
        return self.mod_by_braces(n)

    def mod_by_braces(self, n):
        if not hasattr(self, "_mods"):
            self._mods = [None] * (len(self.lines) + 1)
            stack, depth = [], 0
            for i, l in enumerate(self.lines, 1):
                m = re.match(r"\s*(?:pub )?mod (\w+) \{\s*$", l)
                code = re.sub(r"//.*|'(\\?.)'|\"(\\.|[^\"\\])*\"", "", l)
                if m:
                    stack.append((m.group(1), depth))
                depth += code.count("{") - code.count("}")
                while stack and depth <= stack[-1][1]:
                    stack.pop()
                self._mods[i] = "::".join(s for s, _ in stack)
        return self._mods[n] or None


# ------------------------------------------------------------------ outcome
TRUSTED = [
    "Verus 0.2026.09.13 (VIR, AIR encoding, vstd) and Z3",
    "tools/extract: the mechanical extraction and its desugarings (DESIGN.md, 'Extraction')",
    "spec/: the transcription of the WebAssembly 3.0 binary grammar",
    "model of std::io::Read (rem/eof/fail/adv), read, read_exact, read_to_end, Take, Chain, Cursor and &[u8] over bytes in memory, Bytes::next, by_ref: external_body contracts in spec/prelude.rs",
    "String::from_utf8 accepts exactly valid UTF-8 and keeps the bytes (external_body; the UTF-8 grammar itself is specified)",
    "phf::OrderedMap::get returns the value of the entry with that key (external_body)",
    "the blanket impl<T> From<T> for T is the identity (axiom in spec/prelude.rs, used where ? converts an error to its own type)",
    "f32/f64::from_le_bytes keep the byte pattern (assume_specification); array equality, array map, vec![x; n], Vec::resize (external_body)",
]
ASSUMPTIONS = [
    "usize is 64 bits wide",
    "stack depth and total heap are not modelled by the proof (see the known findings for C13 and C16)",
    "readers obey the std::io::Read contract: what they deliver after an error or an end of file is covered only by the differential check",
    "Display/Debug implementations and other derives are not extracted",
    "machine arithmetic is checked, not treated as mathematical: every + - * << on fixed-width integers carries an overflow obligation",
]


def units_for(p, prop):
    """verification units that carry the property: its functions, and every lemma and table entry of the specification"""
    fns = [k for k in p.fn if prop in props_of(k, p.fn[k]["file"]) or prop in ("C13", "C15", "C16")]
    return sorted(fns)


def main():
    prop = sys.argv[1]
    save = "--save-anchors" in sys.argv
    work = os.path.join(VERIF, "evidence", f"work-{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        if prop == "C17":
            import cli
            return cli.decide(save, work, rdir)
        if prop == "C18":
            import errs
            return errs.decide(work, rdir)
        return decide(prop, save, work, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, save, work, rdir):
    diff = Diff(work)
    cores = os.cpu_count() or 4

    def bg():
        try:
            diff.build()
            log("differential runner", "built" if diff.exe else "does not build")
            if diff.exe:
                diff.go(25 if TIER == "quick" else 60, SEED, max(2, cores // 2))
                log("differential run done:", sum(s["evals"] for s in diff.stats), "evaluations,", len(diff.mism), "mismatches")
        except Exception as e:  # noqa
            diff.err = diff.err or repr(e)

    th = threading.Thread(target=bg)
    th.start()
    exe = build_extract()
    proof = Proof(work, exe, prop in ("C15", "ALL"))
    if exe is None:
        proof.fatal = "the extractor does not build"
    else:
        proof.prove()
    log("proof:", proof.fatal or f"{len(proof.units)} units, {len(proof.failed)} failed obligations, undecided: {proof.undecided}")
    if save and not proof.fatal:
        a = {k: {"shape": f["shape"], "calls": f["calls"], "bindings": f["bindings"]} for k, f in sorted(proof.fn.items())}
        json.dump(a, open(os.path.join(VERIF, "contracts", "anchors.json"), "w"), indent=1, sort_keys=True)
    th.join()
    if prop == "ALL":  # development: every property from one run
        if not diff.mism and (proof.failed or proof.fatal or proof.undecided):
            diff.go(40, SEED + 1000, cores)
        print("FAILED", sorted({(o["key"], o["kind"], tuple(o["props"])) for o in proof.failed}), "UNDECIDED", proof.fatal or proof.undecided)
        seen = {}
        for m in diff.mism:
            seen.setdefault((m["kind"], m["family"], " ".join(m["props"])), m)
        for k, m in sorted(seen.items()):
            print("MISMATCH", *k, "|", m["reader"], m["bytes"][:80], "|", m["detail"][:160].replace("\n", " "))
        ob = {q for o in proof.failed for q in o["props"]}
        mm = {q for m in diff.mism for q in m["props"]}
        print("VIOLATED with input:", sorted(mm | (ob if diff.mism else set())), "without input:", sorted(ob if not diff.mism else set()))
        return 0
    relevant = [o for o in proof.failed if prop in o["props"]]
    weak = proof.fatal or proof.undecided
    mine = lambda: [m for m in diff.mism if prop in m["props"]]
    if not mine() and diff.exe and (proof.failed or weak):
        # look for the failing input, or stand in for what could not be proved
        diff.go(40 if relevant or proof.fatal else 20, SEED + 1000, cores)
        if relevant and not diff.mism:
            diff.go(60, SEED + 2000, cores)
    if TIER == "thorough" and diff.exe and not mine():
        diff.go(240, SEED + 5000, cores)

    known = known_findings(prop, diff)
    viol = None
    if mine():
        m = min(mine(), key=lambda m: (m["len"], m["reader"] != "slice"))
        viol = (write_replay(rdir, prop, m, proof, relevant), "")
    elif relevant and diff.mism:
        m = min(diff.mism, key=lambda m: (m["len"], m["reader"] != "slice"))
        viol = (write_replay(rdir, prop, m, proof, relevant), "")
    elif relevant:
        viol = (write_replay(rdir, prop, None, proof, relevant), " no-failing-input-found")
    evidence(prop, proof, diff, relevant, viol, known)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for o in relevant[:5]:
        print(f"FAILED-OBLIGATION: {o['key']} ({o['file']}:{o['line']}): {o['msg']}")
    if viol:
        print(f"VIOLATION property={prop} replay={viol[0]}{viol[1]}")
        return 1
    done = sum(1 for u in proof.units.values() if u["ok"])
    ev = sum(s["evals"] for s in diff.stats)
    if proof.fatal or proof.undecided:
        und = proof.fatal or "; ".join(f"{k}: {v}" for k, v in list(proof.undecided.items())[:6])
        print(f"UNDECIDED by proof, bounded check only ({ev} evaluations): {und}")
    print(f"OK property={prop} obligations={len(proof.units)} discharged={done} evaluations={ev} wall={time.time() - T0:.0f}s")
    return 0


def known_findings(prop, diff):
    out = []
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path) or not diff.exe:
        return out
    for f in json.load(open(path))["findings"]:
        if f["property"] != prop:
            continue
        rc, o = diff.demo(f["demo"][0], f["demo"][1])
        m = re.search(r"input_len (\d+) peak (\d+) (\w+)", o or "")
        if f["demo"][0] == "deep":
            bad = rc is not None and rc < 0
        else:
            bad = bool(m) and int(m.group(2)) > 64 * 1024 + 1024 * int(m.group(1))
        if bad:
            out.append(f["what"])
    return out


def write_replay(rdir, prop, m, proof, relevant):
    path = os.path.join(rdir, f"{prop}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\n")
        for o in relevant:
            f.write(f"failed obligation: {o['key']} ({o['file']}:{o['line']}): {o['msg']} [{o['kind']}]\n")
        if m:
            f.write(f"\nfailing input ({m['len']} bytes), kind {m['kind']}, family {m['family']}, properties {' '.join(m['props'])}\n")
            f.write(f"reader: {m['reader']}\nbytes: {m['bytes']}\n\n{m['detail']}\n\n")
            f.write(f"replay with: {VERIF}/replay.sh {path}\n")
        for o in relevant:
            f.write(f"\n---- verifier output for {o['key']}\n{o['text']}\n")
        for k, v in proof.undecided.items():
            f.write(f"undecided by proof: {k}: {v}\n")
        if proof.fatal:
            f.write(f"undecided by proof: {proof.fatal}\n")
    return path


def evidence(prop, proof, diff, relevant, viol, known):
    fn = getattr(proof, "fn", {})
    mine = [k for k in fn if prop in props_of(k, fn[k]["file"]) or prop in ("C13", "C15", "C16")]
    st = diff.stats
    fam = {}
    for s in st:
        for k, v in s["families"].items():
            fam[k] = fam.get(k, 0) + v
    ext_body = []
    if getattr(proof, "lines", None):
        for i, l in enumerate(proof.lines):
            if "external_body" in l or "assume_specification" in l or re.search(r"\b(assume|admit)\s*\(", l):
                for x in proof.lines[i:i + 4]:
                    mm = re.search(r"\bfn (\w+)|assume_specification \[ ([\w:]+)|struct (\w+)", x)
                    if mm:
                        ext_body.append(next(g for g in mm.groups() if g))
                        break
    done = sum(1 for u in proof.units.values() if u["ok"])
    ev = {
        "property": prop,
        "tier": TIER if TIER in ("quick", "thorough") else "quick",
        "seed": SEED,
        "level": "proof",
        "coverage": {
            "obligations": len(proof.units),
            "discharged": done,
            "checker_cmd": proof.cmd or "verus (not reached)",
            "trusted_base": TRUSTED,
            "back_end": "Verus -> Z3 (SMT); one query set per function, lemma or table entry",
            "functions_under_contract": len([f for f in fn.values() if f["contracted"] and not f["external"]]),
            "functions_carrying_this_property": sorted(mine),
            "failed_obligations": [f"{o['key']}: {o['msg']}" for o in relevant],
            "failed_obligations_of_other_properties": [f"{o['key']}: {o['msg']} -> {' '.join(o['props'])}" for o in proof.failed if o not in relevant],
            "bounded_not_proved": proof.undecided if not proof.fatal else {"*": proof.fatal},
            "discharged_on_retry": proof.retries,
            "solver_ms": proof.smt_ms,
            "slowest_units_ms": dict(sorted(((k, u["ms"]) for k, u in proof.units.items()), key=lambda x: -x[1])[:8]),
            "external_body_or_assumed": sorted(set(ext_body)),
            "counterexample_search": {
                "label": "bounded; never counted as proved",
                "evaluations": sum(s["evals"] for s in st),
                "distinct_inputs": sum(s["distinct"] for s in st),
                "accepted_and_equal": sum(s["accepted"] for s in st),
                "rejected_with_the_right_figures": sum(s["rejected"] for s in st),
                "reader_faults": sum(s["faulted"] for s in st),
                "families": fam,
                "max_bytes_of_memory_per_input_byte": max([s["max_bytes_per_byte"] for s in st], default=0),
                "mismatches": len(diff.mism),
                "new_literals_tried": [str(x) for x in diff.new[0][:20]] + diff.new[1][:20],
                "not_built": diff.err or "",
            },
            "known_findings": known,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
