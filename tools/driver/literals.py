"""Integer, byte and string literals of the decoder's sources: where inputs are worth trying."""
import os, re

NUM = re.compile(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b")
CHR = re.compile(r"b'(\\?.)'")
STR = re.compile(r'b?"((?:[^"\\]|\\.)*)"')


def harvest(src):
    nums, strs = set(), set()
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            try:
                t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            t = t.split("#[cfg(test)]")[0] if f != "mod.rs" else t
            code = "\n".join(l for l in t.split("\n") if not l.lstrip().startswith("//"))
            for m in NUM.finditer(code):
                try:
                    s = m.group(1).replace("_", "")
                    v = int(s, 0) if s.startswith(("0x", "0b", "0o")) else int(s)
                except ValueError:
                    continue
                if v < 1 << 64:
                    nums.add(v)
            for m in re.finditer(r"(\d+)\s*<<\s*(\d+)|(\d+)\.pow\((\d+)\)|(\d[\d_]*)\s*\*\s*(\d[\d_]*)", code):
                g = m.groups()
                try:
                    v = int(g[0]) << int(g[1]) if g[0] else int(g[2]) ** int(g[3]) if g[2] else int(g[4].replace("_", "")) * int(g[5].replace("_", ""))
                except (ValueError, OverflowError):
                    continue
                if v < 1 << 64:
                    nums.add(v)
            for m in STR.finditer(code):
                s = m.group(1)
                if 0 < len(s) <= 64 and "{" not in s and "\\" not in s:
                    strs.add(s.encode().hex())
            for m in CHR.finditer(code):
                if len(m.group(1)) == 1:
                    strs.add(m.group(1).encode().hex())
    return nums, strs


def write(src, base, out):
    """lower case: known literals; upper case: literals the pinned sources do not have"""
    nums, strs = harvest(src)
    bn, bs = set(), set()
    try:
        for l in open(base):
            k, v = l.split()
            (bn if k == "n" else bs).add(int(v) if k == "n" else v)
    except OSError:
        pass
    with open(out, "w") as f:
        for v in sorted(nums):
            f.write(f"{'n' if v in bn or not bn else 'N'} {v}\n")
        for s in sorted(strs):
            f.write(f"{'s' if s in bs or not bs else 'S'} {s}\n")
    return sorted(nums - bn) if bn else [], sorted(strs - bs) if bs else []


if __name__ == "__main__":
    import sys
    write(sys.argv[1], "/nonexistent", sys.argv[2])
