"""A small structural parser of the generated C#."""
import re

TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|[A-Za-z_@\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*|[0-9][0-9A-Za-z_.]*(?:[eE][-+]?[0-9]+[fF]?)?|[^\sA-Za-z0-9_]')
ALIASES = {"byte": "Byte", "sbyte": "SByte", "ushort": "UInt16", "short": "Int16", "uint": "UInt32", "int": "Int32", "ulong": "UInt64", "long": "Int64",
           "nuint": "UIntPtr", "nint": "IntPtr", "float": "Single", "double": "Double", "bool": "Boolean", "void": "Void", "string": "String"}
SIZES = {"Byte": 1, "SByte": 1, "UInt16": 2, "Int16": 2, "UInt32": 4, "Int32": 4, "UInt64": 8, "Int64": 8, "UIntPtr": 8, "IntPtr": 8, "Single": 4, "Double": 8,
         "Boolean": 1}
MODS = {"public", "private", "internal", "unsafe", "partial", "static", "extern", "readonly"}


class Bad(Exception):
    pass


def strip(src):
    """Without comments and preprocessor lines."""
    out, i, n = [], 0, len(src)
    bol = True
    while i < n:
        c = src[i]
        if c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                if src[j] == "\n":
                    raise Bad("line break in a string literal")
                j += 2 if src[j] == "\\" else 1
            out.append(src[i:j + 1])
            i, bol = j + 1, False
        elif src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            j = src.find("*/", i + 2)
            if j < 0:
                raise Bad("comment without end")
            out.append(" ")
            i = j + 2
        elif c == "#" and bol:
            j = src.find("\n", i)
            i = n if j < 0 else j
        else:
            if c in "\n\r\u0085\u2028\u2029":
                bol = True
            elif not c.isspace():
                bol = False
            out.append(c)
            i += 1
    return "".join(out)


class CSharp:
    def __init__(self, src):
        self.t = TOKEN.findall(strip(src))
        self.i = 0
        self.types = {}      # name -> decl
        self.fns = {}        # name -> decl
        self.consts = {}     # name -> (type, expression tokens)
        self.dups = []
        self.file()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def want(self, x):
        y = self.next()
        if y != x:
            raise Bad(f"expected {x!r}, found {y!r} after {' '.join(self.t[max(0, self.i - 12):self.i - 1])}")

    def ident(self):
        x = self.next()
        if x is None or not re.fullmatch(r"@?[^\W\d]\w*", x):
            raise Bad(f"expected an identifier, found {x!r} after {' '.join(self.t[max(0, self.i - 12):self.i - 1])}")
        return x.lstrip("@")

    def attrs(self):
        out = []
        while self.peek() == "[":
            depth, s = 0, []
            while True:
                x = self.next()
                if x is None:
                    raise Bad("attribute without end")
                depth += {"[": 1, "]": -1}.get(x, 0)
                s.append(x)
                if depth == 0:
                    break
            out.append("".join(s[1:-1]))
        return out

    def mods(self):
        out = []
        while self.peek() in MODS:
            out.append(self.next())
        return out

    def type(self):
        x = self.ident()
        x = ALIASES.get(x, x)
        while self.peek() == "*":
            self.next()
            x += "*"
        return x

    def add(self, where, name, decl):
        if name in where:
            self.dups.append(name)
        where[name] = decl

    def file(self):
        while self.peek() is not None:
            if self.peek() == "using":
                while self.next() != ";":
                    pass
            elif self.peek() == "namespace":
                self.next()
                while self.peek() != "{":
                    self.next()
                self.next()
            elif self.peek() == "}" and self.i == len(self.t) - 1:
                self.next()
            else:
                self.decl()

    def params(self):
        self.want("(")
        ps = []
        while self.peek() != ")":
            if ps:
                self.want(",")
            a = self.attrs()
            t = self.type()
            ps.append((self.ident(), t, a))
        self.want(")")
        return ps

    def decl(self):
        a = self.attrs()
        self.mods()
        k = self.next()
        if k == "class":
            self.ident()
            self.want("{")
            while self.peek() != "}":
                self.member()
            self.next()
        elif k == "enum":
            n = self.ident()
            base = None
            if self.peek() == ":":
                self.next()
                base = self.type()
            self.want("{")
            vs, last = [], -1
            while self.peek() != "}":
                v = self.ident()
                if self.peek() == "=":
                    self.next()
                    s = ""
                    while self.peek() not in (",", "}"):
                        s += self.next()
                    last = int(s.rstrip("uUlL"), 0)
                else:
                    last += 1
                vs.append((v, last))
                if self.peek() == ",":
                    self.next()
                elif self.peek() != "}":
                    raise Bad(f"enum {n}: unexpected {self.peek()!r}")
            self.next()
            self.add(self.types, n, dict(kind="enum", base=base or "Int32", variants=vs))
        elif k == "struct":
            n = self.ident()
            self.want("{")
            fs = []
            while self.peek() != "}":
                fa = self.attrs()
                m = self.mods()
                if self.peek() == "fixed":
                    self.next()
                    t = self.type()
                    fn = self.ident()
                    self.want("[")
                    cnt = int(self.next())
                    self.want("]")
                    fs.append((fn, t, fa, cnt))
                else:
                    t = self.type()
                    fs.append((self.ident(), t, fa, None))
                self.want(";")
                if len({f[0] for f in fs}) != len(fs):
                    raise Bad(f"struct {n}: member {fs[-1][0]} twice")
            self.next()
            self.add(self.types, n, dict(kind="struct", fields=fs, attrs=a))
        elif k == "delegate":
            r = self.type()
            n = self.ident()
            ps = self.params()
            self.want(";")
            self.add(self.types, n, dict(kind="delegate", ret=r, params=ps, attrs=a))
        else:
            raise Bad(f"unexpected {k!r} after {' '.join(self.t[max(0, self.i - 12):self.i - 1])}")

    def member(self):
        a = self.attrs()
        m = self.mods()
        if self.peek() == "const":
            self.next()
            t = self.type()
            n = self.ident()
            self.want("=")
            e = []
            while self.peek() != ";":
                e.append(self.next())
            self.next()
            if n != "RustLib":
                self.add(self.consts, n, (t, e))
            return
        t = self.type()
        n = self.ident()
        ps = self.params()
        self.want(";")
        self.add(self.fns, n, dict(ret=t, params=ps, attrs=a, mods=m))

    # ---- layouts
    def layout(self, t, seen=()):
        """(size, alignment) of a type by value, with `bool` as one byte."""
        if t.endswith("*"):
            return 8, 8
        if t in SIZES:
            return SIZES[t], SIZES[t]
        d = self.types.get(t)
        if d is None:
            raise Bad(f"type {t} is not declared")
        if d["kind"] == "enum":
            return self.layout(d["base"])
        if d["kind"] == "delegate":
            return 8, 8
        if t in seen:
            raise Bad(f"struct {t} contains itself")
        off, al = 0, 1
        for fn, ft, fa, cnt in d["fields"]:
            s, k = self.layout(ft, seen + (t,))
            off = (off + k - 1) // k * k + s * (1 if cnt is None else cnt)
            al = max(al, k)
        return (off + al - 1) // al * al, al


BUILTIN = set(SIZES) | {"Void"}


class Abi:
    """Compares C# types with the specification's."""
    PRIM = {"u8": "Byte", "u16": "UInt16", "u32": "UInt32", "u64": "UInt64", "usize": "UIntPtr", "i8": "SByte", "i16": "Int16", "i32": "Int32", "i64": "Int64",
            "isize": "IntPtr", "f32": "Single", "f64": "Double"}

    def __init__(self, cs, prog, facts, key):
        self.cs, self.p, self.facts, self.key = cs, prog, facts, key
        self.done = set()
        self.checks = 0

    def eq(self, t, c, attrs, where, by_value=True):
        """Raises Bad if C# type `c` (with marshalling attributes) does not describe `t`."""
        self.checks += 1
        p = self.p
        while t[0] in ("nt", "opt"):
            t = p.inner(t) if t[0] == "nt" else t[1]
        bad = lambda why="": Bad(f"{where}: C# type {c} for {self.show(t)}{why and ': ' + why}")
        g = t[0]
        at = " ".join(attrs)
        if g in self.PRIM:
            if c != self.PRIM[g]:
                raise bad()
            if "MarshalAs" in at:
                m = re.search(r"UnmanagedType\.(\w+)", at)
                if m and m[1] not in ("U1", "I1", "U2", "I2", "U4", "I4", "U8", "I8", "R4", "R8", "SysInt", "SysUInt") or m and m[1][0] in "UIR" and m[1][1:].isdigit() and int(m[1][1:]) != SIZES[c]:
                    raise bad("marshalled as " + at)
            return
        if g == "cchar":
            if c not in ("Byte", "SByte"):
                raise bad()
            return
        if g == "bool":
            if c != "Boolean":
                raise bad()
            if by_value and not re.search(r"UnmanagedType\.[UI]1\b", at):
                raise bad("without MarshalAs(UnmanagedType.U1), a bool is 4 bytes")
            return
        if g == "unit":
            if c != "Void":
                raise bad()
            return
        if "UnmanagedType.U1" in at:
            raise bad("marshalled as a byte")
        if g in ("cref", "cbox", "craw"):
            if c not in ("Byte*", "SByte*", "IntPtr"):
                raise bad()
            return
        if g == "arr":
            d = self.struct(c, bad)
            n = t[2]
            fs = d["fields"]
            if len(fs) == 1 and fs[0][3] is not None:
                if fs[0][3] != n:
                    raise bad(f"{fs[0][3]} elements")
                ft = fs[0][1]
                b = t[1]
                while b[0] == "nt":
                    b = p.inner(b)
                if ft not in SIZES or ft in ("UIntPtr", "IntPtr"):
                    raise bad(f"fixed buffer of {ft}")
                # a fixed buffer of the backing integer is all that can be said of an enum in one
                if b[0] == "en":
                    if SIZES[ft] != self.facts["ty:" + self.key(b)]["size"]:
                        raise bad()
                else:
                    self.eq(b, ft, [], where + ".arr", by_value=False)
            else:
                if len(fs) != n:
                    raise bad(f"{len(fs)} elements")
                if len({(f[1], tuple(f[2])) for f in fs}) > 1:
                    raise bad("elements of several types")
                self.eq(t[1], fs[0][1], fs[0][2], where + "[]")
            self.size(t, c, d, bad)
            return
        if g == "fn":
            if c == "IntPtr":
                return
            d = self.cs.types.get(c)
            if not d or d["kind"] != "delegate":
                raise bad("no such delegate")
            if by_value and "UnmanagedType.FunctionPtr" not in at:
                raise bad("delegate without MarshalAs(UnmanagedType.FunctionPtr)")
            self.sig(t[2], [("", x) for x in t[3]], d, where + " delegate " + c, (self.key(t), c))
            return
        if g == "en":
            d = self.cs.types.get(c)
            if not d or d["kind"] != "enum":
                raise bad("no such enum")
            rep = p.by_name[t[1]]["repr"]
            want = "Int32" if rep == "C" else self.PRIM[rep]
            if d["base"] != want:
                raise bad(f"its integer is {d['base']} rather than {want}")
            return
        fs = p.fields(t)
        if fs is not None:
            d = self.struct(c, bad)
            if (self.key(t), c) in self.done:
                return
            self.done.add((self.key(t), c))
            got, want = [f[0] for f in d["fields"]], [f[0].replace("r#", "") for f in fs]
            if got != want:
                raise bad(f"members {got} rather than {want}")
            for (fn, ft, fa, cnt), (_, x) in zip(d["fields"], fs):
                if cnt is not None:
                    raise bad("fixed buffer")
                self.eq(x, ft, fa, f"{where}.{fn}")
            self.size(t, c, d, bad)
            return
        # pointers
        if g in PTRS:
            x = t[1]
            if not c.endswith("*"):
                if c == "IntPtr":
                    return
                raise bad("not a pointer")
            q = c[:-1]
            if x[0] in ("void", "erased"):
                if x[0] == "void" and q != "Void" or x[0] == "erased" and q in SIZES:
                    raise bad()
                return
            if x[0] == "op":
                d = self.cs.types.get(q)
                if not d or d["kind"] != "struct" or [f[0] for f in d["fields"]] != ["OPAQUE"]:
                    raise bad("not an opaque struct")
                return
            self.eq(x, q, [], where + "*", by_value=False)
            return
        raise bad("unknown")

    def show(self, t):
        try:
            return self.p.rs(t)
        except Exception:
            return str(t)

    def struct(self, c, bad):
        d = self.cs.types.get(c)
        if not d or d["kind"] != "struct":
            raise bad("no such struct")
        return d

    def size(self, t, c, d, bad):
        f = self.facts.get("ty:" + self.key(t))
        s, a = self.cs.layout(c)
        at = " ".join(d["attrs"])
        if "LayoutKind.Sequential" not in at:
            raise bad("layout is not sequential")
        m = re.search(r"Size=(\d+)", at)
        if f:
            if (s, a) != (f["size"], f["align"]):
                raise bad(f"size, alignment {s}, {a} rather than {f['size']}, {f['align']}")
            if m and int(m[1]) != f["size"]:
                raise bad(f"Size = {m[1]} rather than {f['size']}")
        m = re.search(r"Pack=(\d+)", at)
        if m and 0 < int(m[1]) < a or "Pack" in at and not m or "Explicit" in at:
            raise bad("packed or explicit layout")

    def sig(self, ret, params, d, where, memo=None):
        if memo:
            if memo in self.done:
                return
            self.done.add(memo)
        if len(d["params"]) != len(params):
            raise Bad(f"{where}: {len(d['params'])} parameters rather than {len(params)}")
        names = [x[0] for x in d["params"]]
        if len(set(names)) != len(names):
            raise Bad(f"{where}: parameter names {names}")
        for (pn, pt, pa), (an, t) in zip(d["params"], params):
            if an and pn != an:
                raise Bad(f"{where}: parameter {pn} rather than {an}")
            self.eq(t, pt, pa, f"{where}({pn})")
        self.eq(ret, d["ret"], [a for a in d["attrs"] if a.startswith("return:")], where + " result")


PTRS = ("cptr", "mptr", "nn", "nnref", "nnmut", "nnown", "ref", "mut", "box", "out")
