"""C20: the text of programs: tokens and literals, judged by TLC against specs/Lexer.tla."""
import glob
from vf import *

SYM = ["(", ")", "[", "]", "{", "}", "@", "#", "!", "~", ".", "..", "...", "?", ",", ":", ";", "=", "==", "!=", "=>", "->", "<", "<=", "<<",
       "<<=", ">", ">=", ">>", ">>=", "+", "-", "*", "/", "%", "&", "^", "|", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=",
       "&.", "^=", "|=", "`", "#{", ".[", "#.", "##", "!:"]
KW = ["virtual", "auto", "true", "false", "null", "if", "else", "match", "for", "in", "is", "while", "break", "return", "yield", "continue",
      "func", "var", "const", "type", "native", "extern", "exception", "struct", "enum", "pub", "opaque", "catch", "raise", "async",
      "launch", "ptrof", "await", "delete", "discard", "switch", "case", "default", "defer", "macro", "void", "string", "range", "module",
      "import", "include", "cDefine", "cInclude", "cSources", "as", "asm", "from", "unsafe", "interface", "this", "This", "super", "class",
      "defined", "test", "__cc", "bool", "wchar", "char", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"]


# the first and last characters of one, two, three and four bytes
EDGE = ["\x7f", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\uffff", "\U00010000", "\U000fffff", "\U00100000", "\U0010ffff"]


def build(c):
    d = c.scratch("lex")
    exe = os.path.join(d, "lex")
    src = sorted(glob.glob(os.path.join(REPO, "src/cxy/core/*.c"))) + [os.path.join(REPO, "src/cxy/lang/frontend/lexer.c")]
    p = c.run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment",
               "-I", os.path.join(REPO, "src/cxy"), "-I", os.path.join(REPO, "src"), "-o", exe, os.path.join(VERIF, "drivers/lex.c")] + src +
              ["-Wl,--unresolved-symbols=ignore-all", "-lm"], timeout=200)
    if p.returncode:
        raise CheckError("the lexer no longer builds with the driver:\n" + p.stderr.decode()[-2000:])
    return exe


def intlit(rng):
    k = rng.random()
    v = rng.choice([0, 1, 7, 8, 9, 10, 255, 256, 65535, 2 ** 31 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64),
                    rng.randrange(2 ** rng.randint(1, 64))])
    if k < 0.45:
        return "0" * rng.choice([0, 0, 0, 1, 3]) + str(v)
    if k < 0.85:
        f = rng.choice(["0x%x", "0x%X", "0o%o", "0x%016x"])
        return f % v if rng.random() < 0.75 else "0b" + bin(v)[2:]
    return rng.choice(["0x", "0b", "0o", "0b2", "0o8", "0xg", "0x1g", "0b12", "0o78", "0x1_0", "1_0", "0b1f\"x\"", "12abc", "0X1F", "0B1",
                       str(2 ** 64), "0x1" + "0" * 16, str(2 ** 64 + rng.randrange(2 ** 70)), "0b1" + "0" * 64, "0x 12", "0x-5", "0b 1", "0x+1",
                       "0o2" + "0" * 21, "0o1" + "0" * 21, "0x1é", "0xffffffffffffffff0", "1\xe9"])


def floatlit(rng):
    if rng.random() < 0.15:
        return rng.choice(["1.", "1.e5", "1.5e", "1.5e+", "1.5E3", "1.0.5", "1..2", "1.[", "1.x", "1. 5", "0x1.8", "1.5p3", "0.1", "1e5", "1.5e-3x"])
    a = str(rng.randrange(10 ** rng.randint(1, 12)))
    b = "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 14)))
    return a + "." + b + (rng.choice(["", "", "e%d", "e+%d", "e-%d"]).replace("%d", str(rng.randint(0, 25))))


def content(rng, n=None, q='"'):
    out = []
    for _ in range(rng.randint(0, 6) if n is None else n):
        k = rng.random()
        if k < 0.4:
            out.append(rng.choice("abcxyz 019.,{}$'/*#%?`\\"[:-1]))
        elif k < 0.7:
            out.append("\\" + rng.choice(["n", "t", "v", "r", "a", "b", "$", '"', "'", "\\", "0", "\\", "\\n", "\\\""]))
        elif k < 0.82:
            out.append("\\" + rng.choice(["x41", "x7f", "xfF", "x4g", "xg", "x", "101", "12", "1", "377", "400", "08", "018", "7", "x00", "q", "c",
                                          "8", "N", "e", "x1b[0m", "x4142"]))
        elif k < 0.92:
            out.append(rng.choice(["é", "€", "𐍈", "界", "\x7f", "\t", rng.choice(EDGE)]))
        else:
            out.append(rng.choice(["$", "$$", "{", "}", "\\$", "$ {", "//", "/*", "''", "é"]))
    return "".join(out).replace("${", "$")


def proper(rng, n):
    """The content of a string that ends where it should."""
    while True:
        s = content(rng, n)
        if re.fullmatch(r'(?:[^"\\\n]|\\.)*', s):
            return s


def charlit(rng):
    if rng.random() < 0.3:
        return "'" + rng.choice(["", "ab", "\\", "\\q", "\\x", "\\xg", "\\x100", "\\400", "\\8", "é€", "\n", "\\x4", "\\1", "\\01", "\\012", "''", "\\''",
                                 "\\x414", "\\0a", "éa", "\\né"]) + "'"
    return "'" + rng.choice(["a", "0", " ", '"', "$", "\\n", "\\t", "\\v", "\\r", "\\a", "\\b", "\\$", '\\"', "\\'", "\\\\", "\\0", "\\x41", "\\xff",
                             "\\x7", "\\101", "\\377", "\\12", "é", "€", "𐍈", "界", "{", "#"] + EDGE) + "'"


def fstring(rng):
    s = 'f"'
    for _ in range(rng.randint(0, 3)):
        s += content(rng, rng.randint(0, 2))
        if rng.random() < 0.8:
            s += "${" + rng.choice([" ", ""]) + rng.choice(["x", "x + 1", "x.0", "a.0.1", '"s"', '"}"', "'}'", "f(x)", "1.5", "/* } */ x", "", "0x1",
                                                           'f"y"', "x{", "\n x \n"]) + "}"
    return s + '"'


def comment(rng):
    return rng.choice(["// x\n", "//\n", "/* x */", "/**/", "/***/", "/* /* a */ b */", "/*/ */", "/* // */", "// /* \n", "/* \n\n */", "/* *//**/",
                       "/* \" */", "// \"\n", "/*/*/**/*/*/", "/* * / */", "///\n"])


def piece(rng, wild):
    k = rng.random()
    if k < wild:
        return rng.choice([b"\x00", b"\xff", b"\x80", b"\xc3", b"\\", b"$", b'"', b"'", b"/*", b'"""', b"\n", b'"a\n', b'"a\\', b"'\\", b"'a", b'f"', b'f"${',
                           b"}", b'"a\n"', b'"a\n\\b"', b"/* *", b"0x", b"\x01", b'""""', b'"""a""', b"*/", b"\r\n", b"'\xe9'", b"'\xff'", b"'\xc3(\'",
                           b"'\xe2\x82'", b'"\xff\xfe"'])
    k = rng.random()
    if k < 0.25:
        s = "".join(rng.choice(SYM) for _ in range(rng.choice([1, 1, 1, 2, 3, 5])))
    elif k < 0.35:
        s = rng.choice(KW)
    elif k < 0.47:
        s = rng.choice(["x", "f", "_", "__", "f1", "x_1", "iff", "_if", "If", "i", "u64x", "e5", "thisis", "n" * 70, "x9", "f32f", "autos", "b1", "cc"])
        if rng.random() < 0.3:
            s = rng.choice(KW) + rng.choice(["", "1", "_", "x"]) if rng.random() < 0.5 else rng.choice(KW)[:-1]
    elif k < 0.6:
        s = intlit(rng)
    elif k < 0.68:
        s = floatlit(rng)
    elif k < 0.78:
        s = '"' + content(rng) + '"'
    elif k < 0.81:
        s = '"""' + rng.choice(["", "a", 'a"b', "a\nb", '""x', "\\n", 'a""b', "\\", "é", "\\x41"]) + '"""'
    elif k < 0.88:
        s = charlit(rng)
    elif k < 0.94:
        s = fstring(rng)
    else:
        s = comment(rng)
    return s.encode("latin-1") if any(0x80 <= ord(x) <= 0xff for x in s) and rng.random() < 0.2 and all(ord(x) < 256 for x in s) else s.encode()


def text(rng, wild):
    glue = rng.choice([[b""], [b" "], [b" ", b"", b"\n"], [b" ", b"", b"", b"\n", b"\t", b"\r\n", b" // c\n"]])
    out = b"".join(rng.choice(glue) + piece(rng, wild) for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 12])))
    out = out[1:] if rng.random() < 0.5 and out[:1].isspace() else out
    if rng.random() < wild and out:
        out = out[:rng.randrange(len(out))]
    return out + rng.choice([b"", b"", b"\n", b" "])


def run_hist(c, exe, h):
    d = c.scratch("run")
    path = os.path.join(d, "in")
    with open(path, "w") as f:
        f.write("".join((t.encode("latin-1").hex() or ".") + "\n" for t in h))
    p = c.run([exe, path], cwd=d, timeout=200, env=c.env(extra={"ASAN_OPTIONS": "detect_leaks=0", "TMPDIR": d}))
    shutil.rmtree(d, ignore_errors=True)
    return [json.loads(l) for l in p.stdout.decode().splitlines()]


LIT_HEAD = """@__cc "lit.c"
extern func vf_hex(tag: i32, s: string): void
extern func vf_hexn(tag: i32, s: ^const char, n: u64): void
extern func vf_int(tag: i32, v: u64): void
extern func vf_flt(tag: i32, v: f64, bits: i32): void
"""
NAMES = {"x": ("var x = 42 as i32;", "42"), "yy": ("var yy = \"q\\\\r\\n\".S;", "q\\r\n"), "z": ("var z = \"k\\\"\";", 'k"'), "b": ("var b = true;", "true")}


def lit(rng):
    """One literal: {kind, src, ...} and how the program shows it."""
    k = rng.random()
    if k < 0.4:
        if rng.random() < 0.2:
            return {"kind": "s", "src": '"""' + rng.choice(["", "a", 'a"b', "a\nb", '""x', "\\n", 'a""b', "é\n\n", "\\x41", "  a\n  b\n", "\\\\", "%d\\t"]) + '"""'}
        return {"kind": "s", "src": '"' + proper(rng, rng.choice([0, 1, 2, 5, 12])) + '"'}
    if k < 0.5:
        a, b = ('"' + proper(rng, rng.randint(0, 4)) + '"' for _ in range(2))
        return {"kind": "+", "src": a, "src2": b}
    if k < 0.6:
        while True:
            s = 'f"' + "".join(proper(rng, rng.randint(0, 3)) + ("${" + rng.choice([" ", ""]) + rng.choice(list(NAMES)) + "}" if rng.random() < 0.8 else "")
                               for _ in range(rng.randint(0, 4))) + '"'
            if not re.search(r"\\[0x]|\\\d|''|\$\$", s):
                return {"kind": "F", "src": s}
    if k < 0.75:
        v = rng.choice([0, 1, 127, 128, 255, 256, 32768, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64), rng.randrange(2 ** 31)])
        f = rng.choice(["%d", "%d", "0x%x", "0X%X", "0o%o", "0x%016x", "00%d", "b"]).replace("0X", "0x")
        neg = int(v <= 2 ** 63 and rng.random() < 0.3 and v > 0)
        return {"kind": "i", "src": "0b" + bin(v)[2:] if f == "b" else f % v, "neg": neg}
    if k < 0.87:
        return {"kind": "i", "src": charlit(rng) if False else "'" + rng.choice(
            ["a", "0", " ", '"', "$", "\\n", "\\t", "\\v", "\\r", "\\a", "\\b", "\\$", '\\"', "\\'", "\\\\", "\\0", "\\x41", "\\xff", "\\x7", "\\101", "\\377",
             "\\12", "é", "€", "𐍈", "界", "{", "#", "?", "\\x7f", "\\x1b", "%", "/"] + EDGE) + "'", "neg": 0}
    while True:
        s = floatlit(rng)
        if re.fullmatch(r"\d+\.\d*(e[+-]?\d+)?", s):
            return {"kind": "f", "src": s, "neg": int(rng.random() < 0.25), "bits": rng.choice([53, 53, 24])}


def show(rng, i, r):
    s, neg = r["src"], "-" if r.get("neg") else ""
    if r["kind"] == "s":
        return [f"vf_hex({i}, {s})", f"var v{i} = {s};\n   vf_hex({i}, v{i})"][i % 2]
    if r["kind"] == "+":
        return f"const v{i} = #{{{s} + {r['src2']}}};\n   vf_hex({i}, v{i})"
    if r["kind"] == "F":
        if "${" not in s:
            return f"vf_hex({i}, {s})"
        return f"{{ var v{i} = {s};\n   vf_hexn({i}, v{i}.data(), v{i}.size() as u64) }}"
    if r["kind"] == "i":
        return f"vf_int({i}, (({neg}{s}) as i64) as u64)" if neg else [f"vf_int({i}, ({s}) as u64)", f"vf_int({i}, ({s}) as u64)"][i % 2]
    return f"vf_flt({i}, {neg}{s}, 53)" if r["bits"] == 53 else f"vf_flt({i}, (({neg}{s}) as f32) as f64, 24)"


def run_lits(c, h):
    """A program with all these literals; what it saw.  Literals it is rejected for are found by halving."""
    files = {"lit.c": open(os.path.join(VERIF, "drivers/lit.c")).read(), "prog.cxy": LIT_HEAD + "func main() {\n   " + "\n   ".join(
        [d for d, _ in NAMES.values()] + [show(None, i, r) for i, r in enumerate(h)]) + "\n}\n"}
    exe, out, d = c.compile(files, "prog.cxy", name="lit")
    if exe is None and len(h) > 1:
        shutil.rmtree(d, ignore_errors=True)
        recs = run_lits(c, h[:len(h) // 2])
        return recs if any(r["end"] == "rejected" for r in recs) else recs + run_lits(c, h[len(h) // 2:])
    rows = {}
    if exe:
        ev = os.path.join(d, "ev")
        c.run([exe], cwd=d, timeout=20, env=c.env(extra={"VF_EV": ev}))
        for l in open(ev) if os.path.exists(ev) else []:
            w = l.split()
            rows[int(w[0])] = [w[1]] + [int(x) for x in w[2:]]
    shutil.rmtree(d, ignore_errors=True)
    recs = []
    for i, r in enumerate(h):
        q = {"kind": r["kind"], "src": list(r["src"].encode()), "src2": list(r.get("src2", "").encode()), "neg": r.get("neg", 0),
             "vals": {k: list(v.encode()) for k, (_, v) in NAMES.items()}, "end": "ok", "out": [], "m": [0], "x": 0}
        if i not in rows:
            q.update(end="missing" if exe else "rejected", why=out[-300:])
        elif r["kind"] == "f":
            q.update(out=[rows[i][1]], x=rows[i][2], m=rows[i][3:])
        else:
            q.update(out=rows[i][1:])
        recs.append(q)
    return recs


def check(c):
    c.model_check("LexMC", "LexMC" if c.pick(1, 0) else "LexMC5")
    exe = build(c)
    rng = c.rng
    hs = []
    for wild in (0, 0.05, 0.2):
        hs += [[text(rng, wild).decode("latin-1") for _ in range(20)] for _ in range(c.pick(100, 1500))]
    judge(c, "LexTrace", hs, lambda h: run_hist(c, exe, h), label="texts", max_viol=2)
    c.cov["texts"] = sum(len(h) for h in hs)
    ps = [[lit(rng) for _ in range(60)] for _ in range(c.pick(16, 160))]
    judge(c, "LitTrace", ps, lambda h: run_lits(c, h), label="literals of programs", max_viol=2)
    c.cov["literals of programs"] = sum(len(h) for h in ps)
