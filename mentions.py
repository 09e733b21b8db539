"""What the library's source mentions: the literals in it, as hints for the
generator of inputs. A program that treats a certain word, a certain length or
a certain number of calls in a special way has to name it somewhere. The hints
only steer the search; what is right or wrong is judged by what the code does.
"""
import glob, os, re

NUM = r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*"
SUF = r"(?:[ui](?:8|16|32|64|128|size))?"
# literals of the tree these checks were written for (masks and round constants): nothing new
COMMON = {
    0xff, 0x100, 0xff00, 0xff0000, 0xff000000, 0x01000000, 0x02000000, 0x04000000, 0x08000000, 0x10000000,
    0x20000000, 0x40000000, 0x80000000, 0x1b000000, 0x36000000,
    0x00ff000000ff000000ff000000ff, 0xffff0000ffff0000ffff0000ffff, 0x00ff00ff00ff00ff00ff00ff00ff00ff,
    0x00ffffff00ffffff00ffffff00ffffff,
    0x00ff000000ff000000ff000000ff000000, 0xff00ff00ff00ff00ff00ff00ff00ff00, 0xffff0000ffff0000ffff0000ffff0000,
    0xffffff00ffffff00ffffff00ffffff00,
}
TABLES = ("000102030405060708090a0b0c0d0e0f", "01020408102040801b36", "52096ad53036a538bf40a39e81f3d7fb",
          "637c777bf26b6fc53001672bfed7ab76")


def value(t):
    t = t.replace("_", "")
    return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)


def sources(src):
    for f in sorted(glob.glob(os.path.join(src, "**", "*.rs"), recursive=True)):
        if "tests" not in os.path.relpath(f, src):
            s = open(f, errors="replace").read()
            s = re.sub(r"/\*.*?\*/", " ", re.sub(r"//[^\n]*", "", s), flags=re.S)
            yield s


def collect(src):
    words, ints = set(), set()

    def word(v, digits):
        for n in (2, 4, 8, 16):
            if v < 1 << 8 * n:
                for k in sorted({n, max(n, digits // 2), 4} if n == 2 else {n, max(n, digits // 2)}):
                    if k in (2, 4, 8, 16):
                        words.add(v.to_bytes(k, "little"))
                        words.add(v.to_bytes(k, "big"))
                break

    for s in sources(src):
        for m in re.finditer(r'b"((?:[^"\\]|\\.)*)"', s):
            try:
                b = m.group(1).encode().decode("unicode_escape").encode("latin1")
            except (UnicodeError, ValueError):
                continue
            if 2 <= len(b) <= 32:
                words.add(b)
        for m in re.finditer(r"\[([^\[\]]*)\]", s):
            e = [x.strip() for x in m.group(1).split(",") if x.strip()]
            e = [re.fullmatch("(%s)%s" % (NUM, SUF), x) for x in e]
            if 2 <= len(e) <= 32 and all(e) and all(value(x.group(1)) < 256 for x in e):
                words.add(bytes(value(x.group(1)) for x in e))
        # tables are no hints
        s = re.sub(r"\[[^\[\]]*\]", lambda m: "[]" if len(re.findall(NUM, m.group())) > 32 else m.group(), s)
        for m in re.finditer(r"(?<![\w.])(%s)%s\s*(<<|\*)\s*(%s)%s\b" % (NUM, SUF, NUM, SUF), s):
            a, b = value(m.group(1)), value(m.group(3))
            v = a * b if m.group(2) == "*" else a << b if b < 64 else 0
            if v not in COMMON:
                ints.add(v)
                if v > 0xff:
                    word(min(v, (1 << 128) - 1), 0)
        for m in re.finditer(r"(?<![\w.])(%s)%s\b" % (NUM, SUF), s):
            v = value(m.group(1))
            if v in COMMON or v >= 1 << 128:
                continue
            hexa = m.group(1).startswith("0x")
            if not hexa or v < 1 << 20 or v & (v + 1) == 0:
                ints.add(v)
                if v & (v + 1) == 0:
                    ints.add(v + 1)
            if v > 0xff:
                word(v, len(m.group(1).replace("_", "")) - 2 if hexa else 0)
    words -= {bytes.fromhex(b) for b in TABLES}
    for v in sorted(COMMON):
        if v > 0xff:
            keep = set(words)
            word(v, 0)
            words, new = keep, words - keep
            yield from ("dict w %s" % b.hex() for b in sorted(new))
    for b in sorted(words):
        yield from ["dict w %s" % b.hex()] * 8
    yield from ("dict n %d" % v for v in sorted(ints) if 255 < v < 1 << 26)


if __name__ == "__main__":
    import sys
    print("\n".join(collect(sys.argv[1])))
