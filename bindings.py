"""Translates the generated C# and Python (cffi) bindings into C declarations of the same meaning, so that the C program
abi/abi.c can be compiled against them. The rules are those of P/Invoke's default marshalling and of cffi's cdef."""
import re

class BindingError(Exception):
    pass

INTS = {"byte": ("uint8_t", 0, 2**8 - 1), "sbyte": ("int8_t", -2**7, 2**7 - 1),
        "UInt16": ("uint16_t", 0, 2**16 - 1), "Int16": ("int16_t", -2**15, 2**15 - 1),
        "UInt32": ("uint32_t", 0, 2**32 - 1), "Int32": ("int32_t", -2**31, 2**31 - 1),
        "UInt64": ("uint64_t", 0, 2**64 - 1), "Int64": ("int64_t", -2**63, 2**63 - 1),
        "UIntPtr": ("size_t", 0, 2**64 - 1), "IntPtr": ("ssize_t", -2**63, 2**63 - 1)}
for a, b in (("ushort", "UInt16"), ("short", "Int16"), ("uint", "UInt32"), ("int", "Int32"), ("ulong", "UInt64"), ("long", "Int64"),
             ("nuint", "UIntPtr"), ("nint", "IntPtr"), ("Byte", "byte"), ("SByte", "sbyte")):
    INTS[a] = INTS[b]
PRIM = {k: v[0] for k, v in INTS.items()}
PRIM.update({"float": "float", "double": "double", "Single": "float", "Double": "double", "void": "void", "char": "uint16_t"})
FIXED = {k for k in PRIM if k not in ("UIntPtr", "IntPtr", "nuint", "nint", "void")} | {"bool"}      # element types of fixed buffers
TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\]|\\.)*"|[A-Za-z_@]\w*(?:\.[A-Za-z_]\w*)*|-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?\w*|[{}()\[\];,:*=])', re.S)

class CSharp:
    """One pass over the tokens of a C# file that declares nothing but what the generator may emit."""
    def __init__(self, text):
        text = re.sub(r"(?ms)^\s*#if IOS\b.*?^\s*#else\b[^\n]*$(.*?)^\s*#endif\b[^\n]*$", r"\1", text)
        text = re.sub(r"(?m)^\s*#pragma[^\n]*$", "", text)
        self.t, i = [], 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m:
                raise BindingError(f"C#: unexpected text {text[i:i + 60]!r}")
            if m[1]:
                self.t.append(m[1])
            i = m.end()
        self.i = 0
        self.structs, self.delegates, self.enums, self.consts, self.funcs = {}, {}, {}, {}, {}
        self.enum_names = []

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""
    def next(self):
        self.i += 1
        return self.t[self.i - 1] if self.i <= len(self.t) else ""
    def want(self, x):
        y = self.next()
        if x != y:
            raise BindingError(f"C#: expected {x!r}, got {' '.join(self.t[max(0, self.i - 8):self.i + 3])!r}")
    def has(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def ident(self):
        x = self.next()
        if not re.fullmatch(r"@?[A-Za-z_]\w*", x):
            raise BindingError(f"C#: expected a name, got {' '.join(self.t[max(0, self.i - 8):self.i + 3])!r}")
        return x.lstrip("@")
    def attrs(self):
        """The attributes here: {"": {...}, "return": {...}}, argument lists as text."""
        r = {"": {}, "return": {}}
        while self.has("["):
            target = ""
            if self.peek() == "return":
                self.next(); self.want(":"); target = "return"
            while True:
                name = self.next()
                args = ""
                if self.has("("):
                    depth = 1
                    while depth:
                        x = self.next()
                        depth += {"(": 1, ")": -1}.get(x, 0)
                        if not x:
                            raise BindingError("C#: unbalanced parentheses")
                        args += x if depth else ""
                r[target][name] = args
                if not self.has(","):
                    break
            self.want("]")
        return r
    def modifiers(self):
        r = set()
        while self.peek() in ("public", "private", "internal", "unsafe", "partial", "static", "extern", "const", "fixed", "readonly"):
            r.add(self.next())
        return r
    def ty(self):
        x, n = self.ident() if "." not in self.peek() else self.next().split(".")[-1], 0
        while self.has("*"):
            n += 1
        return x, n

    def file(self):
        while self.peek():
            self.item()
        return self
    def item(self):
        if self.has("namespace"):
            self.next()
            if not self.has(";"):
                self.want("{")
                while not self.has("}"):
                    self.item()
            return
        if self.has("using"):
            self.next(); self.want(";")
            return
        a = self.attrs()
        self.modifiers()
        k = self.next()
        if k == "class":
            self.ident(); self.want("{")
            while not self.has("}"):
                self.member()
        elif k == "struct":
            self.struct(a)
        elif k == "enum":
            self.enum()
        elif k == "delegate":
            r = self.ty(); name = self.ident(); ps = self.params()
            self.want(";")
            self.once(name)
            self.delegates[name] = (r, a["return"], ps)
        else:
            raise BindingError(f"C#: unexpected {' '.join(self.t[self.i - 1:self.i + 10])!r}")
    def once(self, name):
        for d in (self.structs, self.delegates, self.enums):
            if name in d:
                raise BindingError(f"C#: {name} is declared twice (CS0101)")
    def params(self):
        self.want("(")
        r = []
        while not self.has(")"):
            if r:
                self.want(",")
            a = self.attrs()
            t = self.ty()
            r.append((t, a[""], self.ident()))
        if len({x[2] for x in r}) != len(r):
            raise BindingError("C#: two parameters have the same name (CS0100)")
        return r
    def expr(self, wrap=False):
        """A literal, cast and parenthesized at will."""
        if self.has("unchecked"):
            self.want("("); v = self.expr(True); self.want(")")
            return v
        if self.has("("):
            if self.peek() in INTS:
                k, lo, hi = INTS[self.next()]
                self.want(")")
                v = self.expr(wrap)
                try:
                    x = int(v, 0)
                except ValueError:
                    raise BindingError(f"C#: a cast of {v}")
                if not lo <= x <= hi and not wrap:
                    raise BindingError(f"C#: {v} does not fit in {k} (CS0221)")
                return str((x - lo) % (hi - lo + 1) + lo)
            v = self.expr(wrap); self.want(")")
            return v
        return self.next()
    def member(self):
        a = self.attrs()
        m = self.modifiers()
        t = self.ty()
        name = self.ident()
        if "const" in m or {"static", "readonly"} <= m:
            self.want("=")
            v = self.expr(); self.want(";")
            if t[0] != "string":
                self.dup(name, self.consts)
                self.consts[name] = (t, v, "const" in m)
        elif "DllImport" in a[""] and "extern" in m and "static" in m:
            self.dup(name, self.funcs)
            ps = self.params(); self.want(";")
            conv = a[""]["DllImport"]
            if "CallingConvention" in conv and not re.search(r"CallingConvention\.(Winapi|Cdecl)", conv):
                raise BindingError(f"C#: {name} has an unknown calling convention")
            e = re.search(r'EntryPoint="(\w+)"', conv)
            if e and e[1] != name:
                raise BindingError(f"C#: {name} is bound to the symbol {e[1]}")
            self.funcs[name] = (t, a["return"], ps)
        else:
            raise BindingError(f"C#: unexpected member {name}")
    def dup(self, name, d):
        if name in d:
            raise BindingError(f"C#: {name} is declared twice (CS0102, CS0111)")
    def struct(self, a):
        name = self.ident()
        self.once(name)
        self.want("{")
        fields = []
        while not self.has("}"):
            fa = self.attrs()
            m = self.modifiers()
            t = self.ty(); f = self.ident()
            n = None
            if self.has("["):
                n = int(self.next()); self.want("]")
            if (n is not None) != ("fixed" in m):
                raise BindingError(f"C#: {name}.{f}: an inline array has to be a fixed buffer")
            if n is not None and (t[1] or t[0] not in FIXED):
                raise BindingError(f"C#: {name}.{f}: a fixed buffer of {t[0]} (CS1663)")
            self.want(";")
            if f in [x[0] for x in fields]:
                raise BindingError(f"C#: {name}.{f} is declared twice (CS0102)")
            fields.append((f, t, fa[""], n))
        lay = a[""].get("StructLayout")
        size = None
        if lay is None:
            lay = "LayoutKind.Sequential"
        if "LayoutKind.Sequential" not in lay or "Pack=" in lay:
            raise BindingError(f"C#: {name} has layout {lay}")
        s = re.search(r"Size=(\d+)", lay)
        self.structs[name] = (fields, int(s[1]) if s else None)
    def enum(self):
        name = self.ident()
        self.once(name)
        under = self.ty()[0] if self.has(":") else "Int32"
        if under not in INTS:
            raise BindingError(f"C#: the enum {name} has the underlying type {under}")
        self.want("{")
        vs, prev = [], -1
        while not self.has("}"):
            self.attrs()
            v = self.ident()
            n = prev + 1
            if self.has("="):
                x = self.next()
                try:
                    n = int(x, 0)
                except ValueError:
                    raise BindingError(f"C#: {name}.{v} = {x}")
            if not INTS[under][1] <= n <= INTS[under][2]:
                raise BindingError(f"C#: {name}.{v} = {n} does not fit {under} (CS0031)")
            if v in [x[0] for x in vs]:
                raise BindingError(f"C#: {name}.{v} is declared twice (CS0102)")
            vs.append((v, n))
            prev = n
            if not self.has(","):
                self.want("}")
                break
        self.enums[name] = (INTS[under][0], vs)

    # ---- to C
    def c(self, t, a, where):
        name, n = t
        m = a.get("MarshalAs", "")
        if name == "bool":
            if n:
                base = "bool"        # a managed bool is one byte
            else:
                base = {"UnmanagedType.U1": "bool", "UnmanagedType.I1": "bool", "": "int32_t", "UnmanagedType.Bool": "int32_t"}.get(m)
                if not base:
                    raise BindingError(f"C#: {where}: bool marshalled as {m}")
        elif m and not (m == "UnmanagedType.FunctionPtr" and name in self.delegates):
            raise BindingError(f"C#: {where}: {name} marshalled as {m}")
        elif name in PRIM:
            base = PRIM[name]
        elif name in self.structs or name in self.delegates or name in self.enums or name in self.extern:
            if name in self.delegates and n:
                raise BindingError(f"C#: {where}: a pointer to the delegate {name} (CS0208)")
            base = name
        else:
            raise BindingError(f"C#: {where}: unknown type {name} (CS0246)")
        return base + " " + "*" * n
    def proto(self, r, ra, ps, name, where):
        return f"{self.c(r, ra, where)} {name} ({', '.join(self.c(t, a, where) + n for t, a, n in ps) or 'void'});\n"
    def translate(self, upper, extern):
        """upper: {name without underscores: the name the C program has for the variant}"""
        self.extern = extern
        o = ["#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <sys/types.h>\n"]
        for n, (u, vs) in self.enums.items():
            o.append(f"typedef {u} {n};\n")
            for v, x in vs:
                k = upper.get((re.sub(r"_t$", "", n) + v).upper().replace("_", ""))
                if k:
                    o.append(f"#define {k} (({n}){'(-0x7fffffffffffffff - 1)' if x == -2**63 else str(x) + ('ull' if x > 0 else 'll')})\n")
        for n in self.structs:
            o.append(f"typedef union u_{n} {n};\n" if self.is_array(n) else f"typedef struct s_{n} {n};\n")
        for n, (r, ra, ps) in self.delegates.items():
            o.append("typedef " + self.proto(r, ra, ps, f"(* {n})", n))
        done = set()
        def emit(n, path=()):
            if n in done:
                return
            if n in path:
                raise BindingError(f"C#: {n} contains itself (CS0523)")
            fields, size = self.structs[n]
            for f, t, a, k in fields:
                if t[0] in self.structs and not t[1]:
                    emit(t[0], path + (n,))
            done.add(n)
            body = ""
            for f, t, a, k in fields:
                body += f"    {self.c(t, a, n + '.' + f)} {f if k is None else 'idx'}{'' if k is None else f'[{k}]'};\n"
            if self.is_array(n):
                body = f"    struct {{\n{body}    }};\n    {self.c(fields[0][1], fields[0][2], n)} idx[{len(fields)}];\n"
                o.append(f"union u_{n} {{\n{body}}};\n")
            else:
                o.append(f"struct s_{n} {{\n{body}}};\n")
            if size is not None:
                o.append(f"_Static_assert(sizeof({n}) == {size}, \"the declared size of {n}\");\n")
        for n in self.structs:
            emit(n)
        for n, (r, ra, ps) in self.funcs.items():
            o.append(self.proto(r, ra, ps, n, n))
        for n, (t, v, const) in self.consts.items():
            if t[0] in INTS:
                k, lo, hi = INTS[t[0]]
                if const and k in ("size_t", "ssize_t"):    # constants of native size are those of 32 bits
                    lo, hi = max(lo, -2**31), 2**32 - 1 if lo == 0 else 2**31 - 1
                try:
                    x = int(v, 0)
                except ValueError:
                    raise BindingError(f"C#: const {n} = {v}")
                if not lo <= x <= hi:
                    raise BindingError(f"C#: const {t[0]} {n} = {v} does not fit (CS0031)")
                e = "(-0x7fffffffffffffff - 1)" if x == -2**63 else str(x) + ("ull" if x > 0 else "ll")
            elif t[0] == "bool":
                if v not in ("true", "false"):
                    raise BindingError(f"C#: const bool {n} = {v}")
                k, e = "bool", v
            elif t[0] in ("float", "double"):
                k = t[0]
                special = {"PositiveInfinity": "__builtin_inf()", "NegativeInfinity": "(-__builtin_inf())", "NaN": "__builtin_nan(\"\")"}
                if v.startswith(k + ".") and v[len(k) + 1:] in special:
                    o.append(f"#define {n} (({k}){special[v[len(k) + 1:]]})\n")
                    continue
                if not re.fullmatch(r"-?\d+(\.\d+)?([eE][-+]?\d+)?" + ("[fF]" if k == "float" else "[dD]?"), v):
                    raise BindingError(f"C#: const {k} {n} = {v}: not a literal of that type (CS0664)")
                e = v.rstrip("dD")
                if k == "float" and "." not in e and "e" not in e.lower():
                    e = e.rstrip("fF") + ".0f"
            else:
                raise BindingError(f"C#: const {t[0]} {n}")
            o.append(f"#define {n} (({k}){e})\n")
        return "".join(o)
    def is_array(self, n):
        f = self.structs[n][0]
        return n.endswith("_array_t") and f and f[0][3] is None

def from_csharp(text, upper, extern):
    return CSharp(text).file().translate(upper, extern)

def from_python(text):
    text = re.sub(r"(?m)^\s*#include[^\n]*$", "", text)
    text = re.sub(r"(?m)^(\s*#define\s+\w+)\s+\.\.\.\s*$", "", text)
    bad = re.search(r"(?m)^\s*#(?!define\s+\w+\s+[-\w.]+\s*$)[^\n]*$", text)
    if bad:
        raise BindingError(f"Python: cffi does not process the directive {bad[0].strip()!r}")
    text = re.sub(r"typedef\s*\.\.\.\s*(\w+)\s*;", r"typedef struct \1 \1;", text)
    return "#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <sys/types.h>\n" + text
