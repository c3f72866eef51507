"""writes /verif/MANIFEST.json from properties.jsonl"""
import json
NOTE = ("Verus discharges, for all inputs, every obligation of the contracts on the functions extracted mechanically from /repo/src on this run; "
        "a failing input is looked for with a differential runner, which also is the (bounded) stand-in for a function the verifier cannot read after a change. "
        "Trusted: Verus/Z3, the extraction, the specification's transcription of the grammar, contracts on std (Read adapters, from_utf8, from_le_bytes) and phf lookup.")
EXTRA = {
    "C13": " Stack depth is not modelled (known finding).",
    "C15": " The contracts cover the payloads named in DESIGN.md; the rest of the error values is compared by the bounded differential check.",
    "C16": " The contracts bound each reservation and each list's length by the bytes read; total heap use is measured by the bounded differential check (known finding for locals).",
}
TECH = "contract-based deductive verification (Verus) of the functions extracted from the real code, with counterexample search against a reference decoder"
CLI_NOTE = ("Verus discharges every obligation of the contracts on main and abort of the command-line tool, extracted mechanically from /repo/wadec-cli/src on this run: "
            "main returns only for an accepted module; any other end passes through process::exit, whose precondition asks for a non-zero status and for the error and all its causes having been printed. "
            "A failing run is looked for with the real binary on generated files (bounded; also the stand-in for code the verifier cannot read). "
            "Trusted: Verus/Z3, the extraction (the literal text and layout printed are dropped), contracts on clap's parse, patharg's open, process::exit, Error::source, and the library's entry point (C01-C16).")
ERR_NOTE = ("Verus discharges a contract on Error::source of every error type of the library, on Display of the variants that stand for what they wrap, and on every conversion from one error to another. "
            "They are extracted mechanically, on this run, from what rustc prints of the crate with its derives expanded (-Zunpretty=expanded), so the attributes that generate them are what is judged. "
            "A failing input is looked for by walking the chains of recorded rejections (spec/chains.txt) and of readers that fail at every position (bounded; also the stand-in for code the verifier cannot read). "
            "Trusted: Verus/Z3, rustc's expansion, the extraction, spec/errs.rs (the model of &dyn Error), the standard library's own errors.")
checks = []
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)["id"]
    cli, err = p == "C17", p == "C18"
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": TECH.replace("against a reference decoder", "on the real binary") if cli else TECH.replace("against a reference decoder", "by walking chains of causes") if err else TECH,
        "level": "proof",
        "level_note": CLI_NOTE if cli else ERR_NOTE if err else NOTE + EXTRA.get(p, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "no hooks: nothing in /repo is guarded; the commits in /repo are fixes (known-findings.json)",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
