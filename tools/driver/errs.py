"""C18: chains of causes. The crate's error types with their derives expanded - Error::source, the Display of
variants that stand for what they wrap, and the conversions between errors - are extracted and verified over
spec/errs.rs; the counterexample search walks the chains of recorded rejections and of failing readers."""
import json, os, re, threading, time

import check as K

TRUSTED = [
    "Verus 0.2026.09.13 (VIR, AIR encoding, vstd) and Z3",
    "rustc -Zunpretty=expanded: the text it prints for the derives is the code that is compiled",
    "tools/extract/src/errs.rs: which types are errors, and the rewriting of &(dyn Error) to spec/errs.rs",
    "spec/errs.rs: &(dyn Error) keeps the value it was made from; Error::source and Display of a value are functions of the value",
    "the messages themselves are not extracted: any text counts as a message of the error's own",
]
ASSUMPTIONS = [
    "errors of the standard library (io::Error, FromUtf8Error, TryFromIntError) answer for their own causes",
    "what a decoder puts into an error in the first place is the subject of C15",
]


class ErrsProof(K.Proof):
    cdir, at_least = "contracts/errors", 60

    def expand(self):
        tgt = os.path.join(os.environ.get("WADEC_DIFF_TARGET", os.path.join(K.VERIF, "tools", "diff", "target")), "expand")
        K.run(["cargo", "clean", "--offline", "--quiet", "-p", "wadec", "--target-dir", tgt], 120, cwd=K.REPO)
        env = dict(K.ENV, RUSTC_BOOTSTRAP="1")
        old, K.ENV = K.ENV, env
        try:
            rc, o, e = K.run(["cargo", "rustc", "--offline", "--lib", "-p", "wadec", "--profile", "check", "--target-dir", tgt, "-q", "--", "-Zunpretty=expanded"], 400, cwd=K.REPO)
        finally:
            K.ENV = old
        if rc != 0 or "Error for" not in (o or ""):
            self.fatal = "the crate's derives could not be expanded: " + (e or "")[-1500:]
            return False
        self.exp = os.path.join(self.work, "expanded.rs")
        open(self.exp, "w").write(o)
        return True

    def extract_once(self):
        cmd = [self.extract, "errors", self.exp, os.path.join(K.REPO, "src"), os.path.join(K.VERIF, "spec", "errs.rs"), self.out, os.path.join(self.work, "report.json")]
        for k in self.external:
            cmd += ["--external", k]
        rc, o, e = K.run(cmd, 120)
        if rc != 0:
            self.fatal = "extraction failed: " + (e or "")[-1500:]
            return False
        self.rep = json.load(open(os.path.join(self.work, "report.json")))
        self.lines = open(self.out).read().split("\n")
        self.owner, cur = [None] * (len(self.lines) + 2), None
        for i, l in enumerate(self.lines, 1):
            s = l.strip()
            if s.startswith("//@@BEGIN "):
                cur = s[10:]
            self.owner[i] = cur
            if s.startswith("//@@END"):
                cur = None
        self.fn = {f["key"]: f for f in self.rep["functions"]}
        return True

    def classify(self, errs):
        super().classify(errs)
        for f in self.failed:
            f["props"] = ["C18"]
        for n in self.rep["notes"]:
            self.undecided[n] = "not understood"


class Chains:
    def __init__(self, diff):
        self.diff, self.mism, self.stats = diff, [], {}

    def go(self):
        rc, o, e = K.run([self.diff.exe, "chains-check", os.path.join(K.VERIF, "spec", "chains.txt")], 200)
        for l in (o or "").splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "mismatch" in d:
                self.mism.append(d["mismatch"])
            else:
                self.stats = d.get("stats", {})


def decide(work, rdir):
    diff = K.Diff(work)
    ch = Chains(diff)

    def bg():
        try:
            diff.build()
            if diff.exe:
                ch.go()
        except Exception as e:  # noqa
            diff.err = diff.err or repr(e)

    th = threading.Thread(target=bg)
    th.start()
    exe = K.build_extract()
    proof = ErrsProof(work, exe, False)
    if exe is None:
        proof.fatal = "the extractor does not build"
    elif proof.expand():
        proof.prove()
    th.join()
    K.log("proof:", proof.fatal or f"{len(proof.units)} units, {len(proof.failed)} failed, undecided {proof.undecided}", "; chains", ch.stats, "mismatches", len(ch.mism), (diff.err or "")[-300:])
    failed, viol = proof.failed, None
    if failed or ch.mism:
        path = os.path.join(rdir, "C18.txt")
        with open(path, "w") as f:
            f.write("property: C18\n")
            for o in failed:
                f.write(f"failed obligation: {o['key']} ({o['file']}:{o['line']}): {o['msg']}\n")
            if ch.mism:
                m = min(ch.mism, key=lambda m: m["len"])
                f.write(f"\nfailing input ({m['len']} bytes)\nreader: {m['reader']}\nbytes: {m['bytes']}\n\n{m['detail']}\n\nreplay with: {K.VERIF}/replay.sh {path}\n")
            for o in failed:
                f.write(f"\n---- verifier output for {o['key']}\n{o['text']}\n")
        viol = path + ("" if ch.mism else " no-failing-input-found")
    ext = sorted({m.group(1) for i, l in enumerate(getattr(proof, "lines", [])) if "external_body" in l for y in proof.lines[i + 1:i + 3] for m in [re.search(r"\b(?:fn|struct) (\w+)", y)] if m})
    fn = getattr(proof, "fn", {})
    ev = {
        "property": "C18",
        "tier": K.TIER if K.TIER in ("quick", "thorough") else "quick",
        "seed": K.SEED,
        "level": "proof",
        "coverage": {
            "obligations": len(proof.units),
            "discharged": sum(1 for u in proof.units.values() if u["ok"]),
            "checker_cmd": proof.cmd or "verus (not reached)",
            "trusted_base": TRUSTED,
            "back_end": "Verus -> Z3 (SMT)",
            "functions_under_contract": len([f for f in fn.values() if not f["external"]]),
            "functions_carrying_this_property": sorted(fn),
            "failed_obligations": [f"{o['key']}: {o['msg']}" for o in failed],
            "bounded_not_proved": proof.undecided if not proof.fatal else {"*": proof.fatal},
            "solver_ms": proof.smt_ms,
            "external_body_or_assumed": ext,
            "counterexample_search": {"label": "bounded; never counted as proved", **ch.stats, "mismatches": len(ch.mism), "not_built": diff.err or ""},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - K.T0, 1),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(K.VERIF, "evidence", "C18.json"), "w"), indent=1)
    for o in failed[:5]:
        print(f"FAILED-OBLIGATION: {o['key']} ({o['file']}:{o['line']}): {o['msg']}")
    if viol:
        print(f"VIOLATION property=C18 replay={viol}")
        return 1
    if proof.fatal or proof.undecided:
        print(f"UNDECIDED by proof, bounded check only ({ch.stats}): {proof.fatal or proof.undecided}")
    print(f"OK property=C18 obligations={len(proof.units)} discharged={ev['coverage']['discharged']} chains={ch.stats.get('chains_compared', 0)} reader_failures={ch.stats.get('reader_failures', 0)} wall={time.time() - K.T0:.0f}s")
    return 0
