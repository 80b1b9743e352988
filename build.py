"""Builds, from /repo's current tree: the bitcode the engine reads and the native replay binaries."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, subprocess, sys, time
import bindings, stage

HERE = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(HERE, "build")
LL = "/usr/lib/llvm-18/bin"
TC = "1.72.1"
TRIPLE = "x86_64-unknown-linux-gnu"
STDLIB = f"/root/.rustup/toolchains/{TC}-{TRIPLE}/lib/rustlib/{TRIPLE}/lib"

class BuildError(Exception):
    pass

def env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             HOME="/root", PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin",
             RUSTFLAGS="--emit=llvm-bc,link -Clink-dead-code=no -Awarnings")
    return e

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(f"{cmd if isinstance(cmd, str) else ' '.join(cmd)[:300]}\n{r.stdout[-6000:]}")
    return r.stdout

def engine():
    sh([os.path.join(HERE, "engine", "build.sh")])

def std_bitcode():
    """The bitcode that rustup's std rlibs carry for LTO."""
    out = os.path.join(B, "std.bc")
    if os.path.exists(out):
        return out
    d = os.path.join(B, "std")
    os.makedirs(d, exist_ok=True)
    bcs = []
    for c in ("core", "alloc", "std", "hashbrown", "panic_unwind"):
        lib = glob.glob(f"{STDLIB}/lib{c}-*.rlib")[0]
        for o in sh([f"{LL}/llvm-ar", "t", lib]).split():
            if o.endswith(".o"):
                sh([f"{LL}/llvm-ar", "x", lib, o], cwd=d)
                bc = os.path.join(d, o[:-2] + ".bc")
                sh([f"{LL}/llvm-objcopy", f"--dump-section=.llvmbc={bc}", os.path.join(d, o), "/dev/null"])
                os.unlink(os.path.join(d, o))
                bcs.append(bc)
    # compiler-rt's 128-bit helpers etc. are not needed: llvm has them as instructions
    sh([f"{LL}/llvm-link", *bcs, "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    return out

HARN = re.compile(r"((?:^//@.*\n)+)(?:^//.*\n|^#\[.*\n)*^\s*(?:crate::)?harness!\((\w+)", re.M)

def harnesses():
    """All harnesses, from the annotations in the harness crate: name -> {prop, bounds, covers, ...}"""
    r = {}
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "src", "*.rs"))):
        texts = [(os.path.basename(f), open(f).read())]
        if texts[0][0] == "headers.rs":
            texts += [(f"headers_{lang}.rs", lang_module(lang, texts[0][1])) for lang in ("csharp", "python")]
        for base, text in texts:
          ms = list(HARN.finditer(text))
          for i, m in enumerate(ms):
              meta = {"file": base, "tier": "quick", "profiles": "dev,release", "time": "200", "bounds": ""}
              for k, v1, v2 in re.findall(r'(\w+)=(?:"([^"]*)"|(\S+))', " ".join(l[3:] for l in m[1].splitlines())):
                  meta[k] = v1 or v2
              body = text[m.end(): ms[i + 1].start() if i + 1 < len(ms) else len(text)]
              end = body.find("\n});")
              body = body[:end] if end > 0 else body
              meta["covers"] = sorted(set(re.findall(r'cover\("([^"]*)"\)', body)))
              meta["props"] = meta["prop"].split(",")
              r[m[2]] = meta
    return r

def table(hs):
    t = "extern crate harness;\n"
    t += f"static TABLE: [(&str, extern \"C\" fn()); {len(hs)}] = [\n"
    for n, m in hs.items():
        t += f'    ("{n}", harness::{m["file"][:-3]}::{n}),\n'
    stage.write(os.path.join(B, "table.rs"), t + "];\n")

# Per language of the generator: the prefix of the C program's functions, the property of what it calls, its constants and variants.
LANGS = {"c": ("c_", "H01", "H02"), "csharp": ("cs_", "H03", "H03"), "python": ("py_", "H04", "H04")}
C_ERROR = {}        # property: why the C program could not be compiled against the generated declarations

def lang_module(lang, text):
    """harness/src/headers.rs for the declarations of another language."""
    pre, p1, p2 = LANGS[lang]
    text = re.sub(r"\bc_([a-z]\w*)\b(?=\()", pre + r"\1", text).replace("h_hdr_", f"h_{pre}hdr_")
    text = text.replace("prop=H01", "prop=" + p1).replace("prop=H02", "prop=" + p2).replace("crate::{harness, sx::*}", "crate::sx::*").replace("\nharness!(", "\ncrate::harness!(")
    if lang == "python":    # no constants there
        text = re.sub(r"(?ms)^//@[^\n]*\n(?:crate::)?harness!\(h_py_hdr_constants.*?^\}\);\n", "", text)
    return text.replace("//! H01, H02", f"//! {p1}")

def lang_modules():
    d = os.path.join(B, "gen")
    os.makedirs(d, exist_ok=True)
    text = open(os.path.join(HERE, "harness", "src", "headers.rs")).read()
    for lang in ("csharp", "python"):
        stage.write(os.path.join(d, f"headers_{lang}.rs"), lang_module(lang, text))

def c_side():
    """Generates the declarations of the exports of abi/ in each language, and compiles the C program against them: bitcode and object files."""
    _, gen = cargo_build("dev", ["build", "--lib", "--bin", "gen"])
    C_ERROR.clear()
    out = {}
    for p in ("dev", "release"):
        r = [c_lang(lang, gen, p == "release") for lang in LANGS]
        out[p] = [b for b, _ in r], [o for _, o in r]
    return out

def c_lang(lang, gen, other):
    """The default options of the generator for the dev profile, others for the release profile."""
    pre, *props = LANGS[lang]
    r = subprocess.run([gen, lang, *(["other"] if other else [])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120,
                       env=dict(os.environ, CARGO_PKG_NAME="abi", CARGO_CRATE_NAME="abi", RUST_BACKTRACE="0"))
    sub = "-other" if other else ""
    d = os.path.join(B, "c", lang + sub)
    os.makedirs(d, exist_ok=True)
    text = open(os.path.join(HERE, "abi", "abi.c")).read()
    head, err = r.stdout, None
    if r.returncode:
        err = "the header generator fails:\n" + r.stderr[-3000:]
    elif lang != "c":
        stage.write(os.path.join(d, f"abi.{lang}"), head)
        upper = {x.replace("_", ""): x for x in re.findall(r"\b[A-Z][A-Z0-9_]+\b", text)}
        try:
            head = bindings.from_csharp(head, upper, {"named_handle_t"}) if lang == "csharp" else bindings.from_python(head)
        except bindings.BindingError as e:
            err = f"the generated declarations are not valid:\n{e}"
        # What the generator leaves to the user, and the constants these languages do not have.
        skipped = [l for l in open(os.path.join(B, "c", "c" + sub, "abi.h")).read().splitlines() if re.match(r"#define C_" + ("UNTYPED" if lang == "csharp" else ""), l)]
        head = "#include <stdint.h>\ntypedef int16_t named_handle_t;\n" + "\n".join(skipped) + "\n" + head
        text = re.sub(r"\bc_([a-z]\w*)\b(?=\()", pre + r"\1", text)
    cxx = ["-x", "c++", "-std=c++17"] if other and lang == "c" else ["-x", "c"]      # the header is also for C++
    h, src = os.path.join(d, "abi.h"), os.path.join(d, "abi.c")
    stage.write(h, head)
    stage.write(src, text)
    if not err:
        for what, f in (("the generated declarations do not compile on their own", h), ("the C program does not compile against the generated declarations", src)):
            c = subprocess.run([f"{LL}/clang", *cxx, "-fsyntax-only", "-w", "-I", d, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode:
                err = f"{what}:\n{c.stdout[:3000]}"
                break
    if not err and other and lang == "c":
        twice = os.path.join(d, "twice.c")
        stage.write(twice, '#include "abi.h"\n#include "abi.h"\n#if !defined(ABI_OTHER_GUARD) || C_AFTER_GUARD != 1\n#error "the options were not followed"\n#endif\n')
        for x in (["-x", "c"], cxx):
            c = subprocess.run([f"{LL}/clang", *x, "-fsyntax-only", "-w", "-I", d, twice], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if c.returncode:
                break
        if c.returncode:
            err = f"the header made with options does not compile, or not twice:\n{c.stdout[:3000]}"
    for p in props:
        C_ERROR[p] = C_ERROR.get(p) or err and f"The declarations generated from {os.path.join(HERE, 'abi', 'src', 'lib.rs')} for the language {lang} ({h}): {err}"
    if err:
        src = os.path.join(d, "empty.c")
        stage.write(src, f"int {pre}nothing;\n")
    key = hashlib.sha256(("".join(cxx) + head + open(src).read()).encode()).hexdigest()[:16]
    bc, o = os.path.join(d, f"abi-{key}.bc"), os.path.join(d, f"abi-{key}.o")
    if not os.path.exists(o):
        for x in glob.glob(os.path.join(d, "abi-*")):
            os.unlink(x)
        flags = cxx + (["-fno-exceptions", "-fno-rtti"] if "c++" in cxx else []) + ["-O1", "-g1", "-w", "-fPIC", "-I", d, "-c", src]
        sh([f"{LL}/clang", *flags, "-emit-llvm", "-o", bc])
        sh([f"{LL}/clang", *flags, "-o", o])
    return bc, o

def cargo(profile, obj):
    return cargo_build(profile, ["rustc", "--bin", "replay"], ["--", *("-Clink-arg=" + o for o in obj), "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"])

def cargo_build(profile, what, extra=[]):
    args = ["cargo", *what, "--offline", "--features", "native", "--target", TRIPLE,
            "--target-dir", os.path.join(B, "target"), "--message-format=json"]
    if profile == "release":
        args.append("--release")
    r = subprocess.run(args + extra, cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    msgs = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode:
        errs = [m["message"]["rendered"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error"]
        raise BuildError("cargo build failed\n" + "\n".join(errs)[:6000] + r.stderr[-1500:])
    bcs, exe = [], None
    for m in msgs:
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.endswith(".rlib") and f"/{TRIPLE}/" in f:
                d, b = os.path.split(f)
                if os.path.basename(d) != "deps":     # the workspace's own are uplifted
                    d = os.path.join(d, "deps")
                    c = max(glob.glob(os.path.join(d, b[3:-5] + "-*.bc")), key=os.path.getmtime)
                else:
                    c = os.path.join(d, b[3:-5] + ".bc")
                if os.path.exists(c):
                    bcs.append(c)
        if m["target"]["name"] in ("replay", "gen"):
            exe = m.get("executable") or exe
    return bcs, exe

def link(profile, bcs, hs):
    allbc, out = os.path.join(B, f"all-{profile}.bc"), os.path.join(B, f"h-{profile}.bc")
    sh([f"{LL}/llvm-link", "--suppress-warnings", *bcs, os.path.join(B, "std.bc"), "-o", allbc])
    sh([f"{LL}/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(hs) + ",rust_begin_unwind,SE_PAYLOAD", allbc, "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    os.unlink(allbc)
    return out

def one(p, cbc, cobj, hs):
    bcs, exe = cargo(p, cobj)
    bcs = bcs + cbc
    key = hashlib.sha256(("\n".join(sorted(f"{b} {os.stat(b).st_mtime_ns}" for b in bcs)) + ",".join(hs)).encode()).hexdigest()
    kf, bc = os.path.join(B, f"h-{p}.key"), os.path.join(B, f"h-{p}.bc")
    if not (os.path.exists(kf) and os.path.exists(bc) and open(kf).read() == key):
        link(p, bcs, hs)
        open(kf, "w").write(key)
    return bc, exe

MACROS_ERROR = None     # why the macros could not be compiled as an ordinary library

def everything(profiles, hs):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        jobs = [ex.submit(engine), ex.submit(std_bitcode)]
        if "release" in profiles:       # cargo locks each profile on its own
            jobs.append(ex.submit(cargo_build, "release", ["build", "--lib"]))
        cs = c_side()
        for j in jobs:
            j.result()
        out = dict(zip(profiles, ex.map(lambda p: one(p, *cs[p], hs), profiles)))
    return out

def build(profiles=("dev", "release")):
    """profile -> (bitcode, replay binary)"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stage.stage()
        stage.macros()
        hs = harnesses()
        table(hs)
        lang_modules()
        global MACROS_ERROR
        MACROS_ERROR = None
        try:
            out = everything(profiles, hs)
        except BuildError as e:
            if "could not compile `pm`" not in str(e):
                raise
            # Only M01 needs the macros as functions.
            MACROS_ERROR = str(e)
            stage.macros(stub=True)
            out = everything(profiles, hs)
        return out, hs

if __name__ == "__main__":
    t = time.time()
    try:
        o, hs = build()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(o, len(hs), "harnesses", round(time.time() - t, 1), "s")
