"""C17: the command-line tool. Its functions are extracted and verified over spec/cli.rs; the counterexample
search runs the real binary on files and compares exit status and standard error with the library's verdict."""
import json, os, random, re, shutil, subprocess, threading, time

import check as K

TRUSTED = [
    "Verus 0.2026.09.13 (VIR, AIR encoding, vstd) and Z3",
    "tools/extract: the mechanical extraction and its desugarings (DESIGN.md, 'Extraction'); literal text and layout of what is printed are dropped",
    "spec/cli.rs: contracts on clap's derived Parser::parse, patharg::InputArg::open, std::process::exit, Error::source, Display through eprintln!",
    "the library's entry point accepts exactly the modules it should (the subject of C01-C16)",
]
ASSUMPTIONS = [
    "argument parsing that fails is clap's business and is not modelled",
    "a chain of causes is finite; writing to standard error succeeds",
    "an exit status is taken modulo 256",
]


class CliProof(K.Proof):
    src, cdir, flags, at_least = "wadec-cli/src", "contracts/cli", ["--cli"], 5

    def classify(self, errs):
        super().classify(errs)
        for f in self.failed:
            f["props"] = ["C17"]

    def prove(self):
        super().prove()
        m = getattr(self, "fn", {}).get("main")
        if not self.fatal and m is None:
            self.undecided["main"] = "the function no longer exists"


def section(i, body):
    return bytes([i, len(body)]) + body


P = b"\0asm\1\0\0\0"
VALID = [
    P,
    P + section(0, b"\4name" + b"abc"),
    P + section(1, b"\1\x60\1\x7f\1\x7f"),
    P + section(1, b"\1\x60\0\0") + section(3, b"\1\0") + section(10, b"\1\2\0\x0b"),
    P + section(5, b"\1\0\1") + section(7, b"\1\3mem\2\0"),
    P + section(1, b"\1\x60\0\0") + section(2, b"\1\1a\1b\0\0") + section(8, b"\0"),
    P + section(6, b"\1\x7f\0\x41\x2a\x0b") + section(4, b"\1\x70\0\1") + section(5, b"\1\0\1"),
    P + section(5, b"\1\0\1") + section(12, b"\1") + section(11, b"\1\0\x41\0\x0b\2hi"),
]


def corpus(seed, n):
    r = random.Random(seed)
    out = list(VALID) + [b"", b"\0asm", b"\0asm\2\0\0\0", b"garbage", P + b"\xff\0", P + section(1, b"\1\x60\1\x40\0")]
    # rejections whose chain of causes is long
    out += [P + section(1, b"\1\xaa"), P + section(1, b"\1\x60\1\xaa\0"), P + section(1, b"\1\x60\xff\xff\xff\xff\xff\1")]
    out += [P + section(2, b"\1\1a\1b\1\x70\5\0"), P + section(6, b"\1\x7f\0\x41\xff\xff\xff\xff\xff\x0b")]
    out += [P + section(9, b"\1\5\x70\1\xd2\xff\xff\xff\xff\xff\0\x0b"), P + section(7, b"\1\2\xff\xff\0\0")]
    out += [P + section(10, b"\1\4\1\1\xaa\x0b"), P + section(10, b"\1\5\0\x02\x40\xff\x0b")]
    try:
        rec = [l.strip("\n").split(" ") for l in open(os.path.join(K.VERIF, "spec", "chains.txt"))]
        rec.sort(key=lambda l: -l[1].count(","))
        out += [bytes.fromhex(l[0]) for l in rec[:20] + rec[20::9]]
    except OSError:
        pass
    for v in VALID:
        out += [v[:k] for k in range(len(v))]
    while len(out) < n:
        b = bytearray(r.choice(VALID))
        for _ in range(r.randint(1, 3)):
            k = r.randrange(3)
            if k == 0 and b:
                b[r.randrange(len(b))] = r.choice([0, 1, 0x40, 0x7F, 0x80, 0xFF, r.randrange(256)])
            elif k == 1 and b:
                del b[r.randrange(len(b)):][:0]
                del b[r.randrange(len(b))]
            else:
                b.insert(r.randrange(len(b) + 1), r.randrange(256))
        out.append(bytes(b))
    seen, res = set(), []
    for b in out:
        if b not in seen:
            seen.add(b)
            res.append(b)
    return res


class Run:
    def __init__(self, work):
        self.work, self.exe, self.err, self.mism, self.runs, self.accepted, self.rejected = work, None, "", [], 0, 0, 0

    def build(self):
        tgt = os.environ.get("WADEC_DIFF_TARGET", os.path.join(K.VERIF, "tools", "diff", "target")) + "/cli"
        man = os.path.join(K.REPO, "Cargo.toml")
        K.run(["cargo", "clean", "--offline", "--quiet", "--manifest-path", man, "-p", "wadec", "-p", "wadec-cli", "--target-dir", tgt], 120)
        rc, o, e = K.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", man, "-p", "wadec-cli", "--target-dir", tgt], 600)
        exe = os.path.join(tgt, "debug", "wadec")
        if rc == 0 and os.path.exists(exe):
            self.exe = os.path.join(self.work, "wadec-cli")
            shutil.copy(exe, self.exe)
        else:
            self.err = (e or "the command-line tool was not built")[-2000:]

    def one(self, args, data, cwd):
        p = subprocess.run([self.exe, *args], input=data, capture_output=True, cwd=cwd, timeout=60, start_new_session=True)
        return p.returncode, p.stdout, p.stderr

    def judge(self, label, args, data, want, cwd, file=b""):
        """want: None for a run with no verdict but failure, [] for accepted, else the messages of the chain"""
        self.runs += 1
        self.case = {"label": label, "args": ["module" if a.isdigit() else a for a in args], "data": (data or b"").hex(), "file": file.hex(), "want": "success" if want == [] else f"failure, with {want} on standard error"}
        try:
            rc, so, se = self.one(args, data, cwd)
        except subprocess.TimeoutExpired:
            return self.bad(label, args, data, "still running after 60 s")
        if want == []:
            self.accepted += 1
            if rc != 0:
                self.bad(label, args, data, f"the library accepts the module; exit status {rc}, standard error {se[:300]!r}")
            return
        self.rejected += 1
        if rc == 0:
            return self.bad(label, args, data, f"the input is not accepted ({want}), yet the tool exits with success")
        at = 0
        for m in want or []:
            k = se.find(m, at)
            if k < 0:
                return self.bad(label, args, data, f"the error chain is {want}; standard error lacks {m!r}: {se[:600]!r}")
            at = k + len(m)
        if want is None and not se.strip():
            self.bad(label, args, data, "the input cannot be read, and nothing is printed")

    def bad(self, label, args, data, detail):
        self.mism.append(dict(self.case, detail=detail))

    def go(self, verdict_exe, seed, n):
        d = os.path.join(self.work, f"files-{seed}")
        os.makedirs(d)
        files = corpus(seed, n)
        for i, b in enumerate(files):
            open(os.path.join(d, f"{i:05}"), "wb").write(b)
        rc, o, e = K.run([verdict_exe, "verdict", d], 120)
        for l in (o or "").splitlines():
            name, v = l.split(" ", 1)
            want = [] if v == "OK" else [bytes.fromhex(x) for x in v.split(",")]
            b = files[int(name)]
            i = int(name)
            if len(self.mism) > 20:
                break
            self.judge("file", [name], None, want, d, b)
            if i % 4 == 0 or want == []:
                self.judge("verbose", ["--verbose", name], None, want, d, b)
                self.judge("stdin", [], b, want, d)
                self.judge("dash", ["-"], b, want, d)
                self.judge("verbose-stdin", ["--verbose"], b, want, d)
        for std in (None, VALID[0]):  # a file that cannot be opened is not replaced by standard input
            self.judge("missing", ["no-such-file"], std, None, d)
            self.judge("missing-verbose", ["--verbose", "no-such-file"], std, None, d)
            self.judge("directory", ["."], std, None, d)
        shutil.rmtree(d, ignore_errors=True)


def decide(save, work, rdir):
    rn, diff = Run(work), K.Diff(work)

    def bg():
        try:
            diff.build()
            rn.build()
            if rn.exe and diff.exe:
                rn.go(diff.exe, K.SEED, 600 if K.TIER == "quick" else 6000)
        except Exception as e:  # noqa
            rn.err = rn.err or repr(e)

    th = threading.Thread(target=bg)
    th.start()
    exe = K.build_extract()
    proof = CliProof(work, exe, False)
    if exe is None:
        proof.fatal = "the extractor does not build"
    else:
        proof.prove()
    if save and not proof.fatal:
        a = {k: {"shape": f["shape"], "calls": f["calls"], "bindings": f["bindings"]} for k, f in sorted(proof.fn.items())}
        json.dump(a, open(os.path.join(K.VERIF, "contracts", "cli", "anchors.json"), "w"), indent=1, sort_keys=True)
    th.join()
    K.log("proof:", proof.fatal or f"{len(proof.units)} units, {len(proof.failed)} failed, undecided {proof.undecided}", "; runs", rn.runs, "mismatches", len(rn.mism), rn.err)
    failed = proof.failed
    if (failed or proof.undecided or proof.fatal) and not rn.mism and rn.exe and diff.exe:
        try:
            rn.go(diff.exe, K.SEED + 1, 2500)
        except Exception as e:  # noqa
            rn.err = rn.err or repr(e)
    viol = None
    if failed or rn.mism:
        path = os.path.join(rdir, "C17.txt")
        with open(path, "w") as f:
            f.write("property: C17\n")
            for o in failed:
                f.write(f"failed obligation: {o['key']} ({o['file']}:{o['line']}): {o['msg']}\n")
            if rn.mism:
                m = min(rn.mism, key=lambda m: len(m["data"]) + len(m["file"]))
                f.write(f"\nfailing run of wadec ({m['label']})\nargs: {' '.join(m['args'])}\nstdin: {m['data']}\nfile: {m['file']}\nexpected: {m['want']}\n{m['detail']}\n")
            for o in failed:
                f.write(f"\n---- verifier output for {o['key']}\n{o['text']}\n")
        viol = path + ("" if rn.mism else " no-failing-input-found")
    ext = sorted({x for i, l in enumerate(getattr(proof, "lines", [])) if "external_body" in l for y in proof.lines[i:i + 3] for x in re.findall(r"\bfn (\w+)|struct (\w+)", y)[:1] for x in x if x})
    fn = getattr(proof, "fn", {})
    ev = {
        "property": "C17",
        "tier": K.TIER if K.TIER in ("quick", "thorough") else "quick",
        "seed": K.SEED,
        "level": "proof",
        "coverage": {
            "obligations": len(proof.units),
            "discharged": sum(1 for u in proof.units.values() if u["ok"]),
            "checker_cmd": proof.cmd or "verus (not reached)",
            "trusted_base": TRUSTED,
            "back_end": "Verus -> Z3 (SMT)",
            "functions_under_contract": len([f for f in fn.values() if f["contracted"] and not f["external"]]),
            "functions_carrying_this_property": sorted(fn),
            "failed_obligations": [f"{o['key']}: {o['msg']}" for o in failed],
            "bounded_not_proved": proof.undecided if not proof.fatal else {"*": proof.fatal},
            "solver_ms": proof.smt_ms,
            "external_body_or_assumed": ext,
            "counterexample_search": {"label": "bounded; never counted as proved", "runs_of_the_tool": rn.runs, "accepted": rn.accepted, "rejected": rn.rejected, "mismatches": len(rn.mism), "not_built": rn.err or diff.err or ""},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - K.T0, 1),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(K.VERIF, "evidence", "C17.json"), "w"), indent=1)
    for o in failed[:5]:
        print(f"FAILED-OBLIGATION: {o['key']} ({o['file']}:{o['line']}): {o['msg']}")
    if viol:
        print(f"VIOLATION property=C17 replay={viol}")
        return 1
    if proof.fatal or proof.undecided:
        print(f"UNDECIDED by proof, bounded check only ({rn.runs} runs): {proof.fatal or proof.undecided}")
    print(f"OK property=C17 obligations={len(proof.units)} discharged={ev['coverage']['discharged']} runs={rn.runs} wall={time.time() - K.T0:.0f}s")
    return 0
