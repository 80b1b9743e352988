"""Lays out /verif/build/sffi/: a copy of /repo's crate, with a Cargo.toml that resolves offline.

Only manifests are derived (no napi git dependency, no feature `js`, no workspace, no tests);
every source file that is compiled is the current one of /repo.
"""
import os, re

REPO = os.environ.get("SFFI_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)

def manifest(text):
    text = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?ms)^js = \[.*?^\]\n", "", text)
    for sec in (r"\[workspace\]", r"\[dev-dependencies\]", r"\[\[test\]\]", r"\[lints\.rust\]"):
        text = re.sub(r"(?ms)^" + sec + r"\n.*?(?=^\[|\Z)", "", text)
    return text

def stage(dst=os.path.join(HERE, "build", "sffi")):
    """Copies the crate; a file is rewritten only if its content differs, so that cargo rebuilds exactly what changed."""
    seen = set()
    for top in ("src", "build.rs", "README.md", "LICENSE", "guide/assets"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) if "/target" not in d for f in fs]
        for f in files:
            rel = os.path.relpath(f, REPO)
            seen.add(rel)
            data, to = open(f, "rb").read(), os.path.join(dst, rel)
            if not os.path.exists(to) or open(to, "rb").read() != data:
                os.makedirs(os.path.dirname(to), exist_ok=True)
                with open(to, "wb") as o:
                    o.write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in seen and rel not in ("Cargo.toml", "Cargo.lock"):
                os.unlink(os.path.join(d, f))
    write(os.path.join(dst, "Cargo.toml"), manifest(open(f"{REPO}/Cargo.toml").read()))

# syn's, for proc_macro2's tokens
PARSE_INPUT = """#[allow(unused_macros)]
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => (match ::syn::parse2::<$t>($i) { Ok(x) => x, Err(e) => return e.to_compile_error() });
    ($i:ident with $p:expr) => (match ::syn::parse::Parser::parse2($p, $i) { Ok(x) => x, Err(e) => return e.to_compile_error() });
    ($i:ident) => (parse_macro_input!($i as _));
}
"""

def macros(dst=os.path.join(HERE, "build", "pm"), stub=False):
    """The crate of the procedural macros as an ordinary library, so that the macros are functions that can be called: entry
    points lose their attributes, and take and give proc_macro2's tokens."""
    src, seen = os.path.join(REPO, "src", "proc_macro"), set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if not f.endswith(".rs"):
                continue
            seen.add(rel)
            text = open(os.path.join(d, f)).read()
            text = re.sub(r"\bproc_macro::", "proc_macro2::", text)
            if rel == "_mod.rs":
                text = re.sub(r"#\[proc_macro\w*(\(.*?\))?\]", "", text)
                # inner attributes come first
                i = max([m.end() for m in re.finditer(r"(?m)^#!\[.*\]\n", text)] or [0])
                text = text[:i] + PARSE_INPUT + text[i:]
                if stub:
                    text = "pub fn c_str(_: ::proc_macro2::TokenStream) -> ::proc_macro2::TokenStream { unimplemented!() }\n"
            to = os.path.join(dst, rel)
            os.makedirs(os.path.dirname(to), exist_ok=True)
            write(to, text)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in seen | {"Cargo.toml", "Cargo.lock"}:
                os.unlink(os.path.join(d, f))
    text = open(os.path.join(src, "Cargo.toml")).read()
    write(os.path.join(dst, "Cargo.toml"), re.sub(r"(?m)^proc-macro = true\n", "", text).replace("safer_ffi-proc_macros", "pm", 1))

if __name__ == "__main__":
    stage()
