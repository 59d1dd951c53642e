"""C20: formatting never changes the generated program."""
import re
from core import ToolError

# Rust source of the string literals, and of the numeric ones, that the atoms stand for.
STR = [r'"plain"', r'""', r'"a  b   c"', r'"trailing  "', r'" leading"', r'"tab\there"', '"real\ttab"', r'"// not a comment"', r'"/* not */ one"',
       r'"_blank_!();"', r'"x _comment_!(\"c\"); y"', r'"#[doc = \"d\"]"', r'"\"quoted\""', r'"\\"', r'"\\\""', r'"{} {:?} {{}}"', '"real\nnewline"',
       '"blank\n\n\nlines"', '"  indented\n      lines  \n  end"', r'"\n\r\0\x41\u{1F600}"', '"ünï→cödé 日本"', r'r"raw \ text"', r'r#"raw "quote" here"#',
       r'r##"raw "# deeper"##', r'b"bytes\xff"', r"'c'", r"'\''", r"b'x'", r"b'\''", r'"' + "long " * 40 + '"', '"a \\\n   continued"',
       r'"/* open"', r'"*/"', r'"; , ) } ]"', r'"let x = 1;"', r'"fn f() {}"', r'"\t\\n"', r'"\r\n"', r'br"raw \ bytes"', r'"0.1f32"', r'"///"', r'"_blank_!()"',
       '"// line\n// line\n"', r'"model.bpk"', r'"conv_1.weight"']
NUM = ["0", "1", "-1", "0.1f32", "1f64", "1e30", "1e-7f32", "3.4028235e38f32", "340282350000000000000000000000000000000.0", "1_000_000i64", "0xffu8", "0b1010",
       "0o17", "-9223372036854775808i64", "18446744073709551615u64", "9223372036854775807i64", "-0.0", "1.", "1.0", "0.30000000000000004f64",
       "5e-324f64", "1E5", "0usize", "4294967296usize", "true", "false", "1.50", "0.10f32", "007", "0x1F", "1i8", "0.000001", "1e+5", "123456789.123456789"]
DOC = [" plain", " two words", "no space", "", " with `code` and \"quotes\"", " // slashes", " a * b", " # Heading", " trailing dot.", " back\\slash", " {braces}"]
COM = ["plain", "two  spaces", " leading", "with \"quotes\"", "x = 1;", "{ open", "back\\slash", "a * b", "// nested", "tab\tin", "ünï→", "Loop (body)", "#[doc = \"x\"]", "/* c */", "_blank_!();"]


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


def lex(text):
    """Rust tokens, comments and documentation of a text; punctuation by the character. Empty lines are recorded."""
    out, i, n = [], 0, len(text)
    pat = re.compile(r"""
      (?P<ws>\s+) | (?P<doc>///(?!/)[^\n]*) | (?P<idoc>//![^\n]*) | (?P<bdoc>/\*\*(?!/).*?\*/) | (?P<com>//[^\n]*) | (?P<bcom>/\*.*?\*/)
    | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h)) | (?P<str>b?"(?:\\.|[^"\\])*") | (?P<chr>b?'(?:\\(?:x..|u\{[^}]*\}|.)|[^'\\])') | (?P<life>'[A-Za-z_]\w*)
    | (?P<num>\d[\w]*(?:\.(?![\w.])|\.\d[\w]*)?(?:(?<=[eE])[+-]\d\w*)?) | (?P<id>(?:r\#)?[^\W\d]\w*) | (?P<p>.)""", re.X | re.S)
    while i < n:
        m = pat.match(text, i)
        k, s = m.lastgroup if m.lastgroup != "h" else "raw", m[0]
        i = m.end()
        if k == "ws":
            if s.count("\n") > 1 or i == len(s) and "\n" in s:
                out.append("#blank")
        elif k == "doc":
            out += ["#", "[", "doc", "=", ("doc", s[3:].rstrip()), "]"]
        elif k in ("com", "bcom", "idoc", "bdoc"):
            out.append(("com", s[2:]))
        else:
            out.append(s)
    return out


def source(prog):
    out, k = [], 0
    while k < len(prog):
        t = prog[k]
        if t == "#comment":
            out.append("_comment_!(" + lit(COM[int(prog[k + 1][2:])]) + ");")
            k += 1
        elif t == "#blank":
            out.append("_blank_!();")
        else:
            out.append({"@s": lambda i: STR[i], "@n": lambda i: NUM[i], "@d": lambda i: lit(DOC[i])}[t[:2]](int(t[2:])) if t.startswith("@") else t)
        k += 1
    # spaces keep the tokens apart, except where punctuation must stay joined
    s = " ".join(out)
    for a in ("::", "->", "=>", "&&", "||", "==", "!=", "+=", ".."):
        s = s.replace(f" {a[0]} {a[1]} ", f" {a} ")
    return s


def expected(prog):
    out, k = [], 0
    while k < len(prog):
        t = prog[k]
        if t == "#comment":
            out.append(("com", COM[int(prog[k + 1][2:])]))
            k += 1
        elif t.startswith("@d"):
            out.append(("doc", DOC[int(t[2:])].rstrip()))
        elif t.startswith("@s"):
            out.append(STR[int(t[2:])])
        elif t.startswith("@n"):
            v = NUM[int(t[2:])]
            out += ["-", v[1:]] if v[0] == "-" else [v]
        else:
            out.append(t)
        k += 1
    return out


def norm(seq, blanks=True):
    out = []
    for t in seq:
        if t == "#blank" and (not blanks or out and out[-1] == "#blank"):
            continue
        if t in (")", "]", "}", ">"):
            j = len(out) - 1
            while j >= 0 and (isinstance(out[j], tuple) or out[j] == "#blank"):
                j -= 1
            # a comma before a closing delimiter means nothing, except in a one-element tuple
            if j >= 0 and out[j] == "," and not (t == ")" and single(out, j)):
                del out[j]
        if isinstance(t, tuple) and t[0] == "com":
            t = ("com", t[1].strip())
        out.append(t)
    return out


def single(out, j):
    d = 0
    for k in range(j - 1, -1, -1):
        t = out[k]
        if t in (")", "]", "}"):
            d += 1
        elif t in ("(", "[", "{"):
            if d == 0:
                prev = next((x for x in reversed(out[:k]) if not isinstance(x, tuple) and x != "#blank"), "")
                return not (re.match(r"[\w]+$", prev) and prev not in ("return", "in", "=") or prev in ("!", ">", ")", "]"))
            d -= 1
        elif t == "," and d == 0:
            return False
    return False


def blanks_kept(want, got):
    """Every empty-line marker of the program is an empty line at its place."""
    g = [t for t in got]
    gi = 0
    for t in want:
        if t == "#blank":
            if gi < len(g) and g[gi] == "#blank":
                gi += 1
                continue
            return False
        if gi < len(g) and g[gi] == "#blank":
            gi += 1
        gi += 1
    return True


def run(ctx):
    q = not ctx.thorough
    fams = [("lit", 0, 0, 0), ("expr", 0, 0, 0), ("stmt", 0, 0, 0), ("item", 0, 0, 0), ("mark", 0, 0, 0), ("imark", 0, 0, 0),
            ("random", 1 + ctx.seed * 100000, ctx.seed * 100000 + (3000 if q else 40000), 2), ("random", 5000000 + ctx.seed * 1000, 5000000 + ctx.seed * 1000 + (300 if q else 4000), 4)]
    ctx.build_driver()
    n = 0
    for k, (f, a, b, d) in enumerate(fams):
        em = ctx.tlc("Formatter", {"Family": f'"{f}"', "From": a, "To": b, "Depth": d, "NStr": len(STR), "NNum": len(NUM), "NDoc": len(DOC), "NCom": len(COM)},
                     invariants=["Balanced"], tag=f"Formatter{k}", timeout=2000)
        if em.error:
            raise ToolError("the specification itself is wrong: " + em.error)
        em.sort(key=lambda e: e["at"])
        srcs = [source(e["program"]) for e in em]
        for e, src, r in zip(em, srcs, ctx.drive([{"cmd": "fmt", "src": s} for s in srcs])):
            n += 1
            if r["res"] == "badsrc" or r["res"] == "abort":
                raise ToolError(f"the driver cannot take the program: {src}: {r}")
            if r["res"] != "ok":
                ctx.violation(f"{f} {e['at']} refused", {"program": src, "got": r})
                continue
            want = norm(expected(e["program"]))
            got = norm(lex(r["text"]))
            w2, g2 = [t for t in want if t != "#blank"], [t for t in got if t != "#blank"]
            marked = any(t.startswith("#comment") or t == "#blank" for t in e["program"])
            ctx.count(f + (":marked" if marked else ""))
            if w2 != g2:
                at = next((i for i, (x, y) in enumerate(zip(w2, g2)) if x != y), min(len(w2), len(g2)))
                ctx.violation(f"{f} {e['at']} tokens", {"program": src, "text": r["text"], "expected": w2[max(0, at - 5):at + 5], "got": g2[max(0, at - 5):at + 5]})
            elif not blanks_kept(want[:-1] if want and want[-1] == "#blank" else want, got):
                ctx.violation(f"{f} {e['at']} empty line", {"program": src, "text": r["text"]})
            elif not marked and r["again"] != r["text"]:
                ctx.violation(f"{f} {e['at']} not stable", {"program": src, "text": r["text"], "again": r["again"]})
        if em:
            ctx.sample({"family": f, "program": srcs[len(em) // 2]}, 6)
    ctx.assumptions += ["A comma before a closing delimiter is not part of the program's meaning (one-element tuples excepted).",
                        "Trailing blanks of documentation lines are not compared."]
    return "model_checking", n
