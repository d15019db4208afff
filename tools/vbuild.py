#!/usr/bin/env python3
"""Builds harnesses of /verif against /repo's current working tree.

Every object comes from /repo's sources as they are now; only the harness and
the stand-ins in /verif/shim (missing submodules) are ours.  Output goes to
/verif/_build (ignored by git), driven by ninja with header dependencies.
"""
import os, shutil, subprocess, sys, hashlib, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
OUT = pathlib.Path(os.environ.get("VERIF_BUILD", str(VERIF / "_build")))
JOBS = os.environ.get("VERIF_JOBS") or str(os.cpu_count() or 4)

ABSL = """flags_parse flags_usage flags flags_internal flags_marshalling flags_reflection
flags_config flags_program_name flags_private_handle_accessor flags_commandlineflag
flags_commandlineflag_internal flags_usage_internal statusor status str_format_internal
hash city low_level_hash raw_hash_set hashtablez_sampler synchronization graphcycles_internal
cord cordz_info cordz_handle cordz_functions cord_internal crc_cord_state crc32c exponential_biased
symbolize stacktrace debugging_internal demangle_internal malloc_internal time civil_time time_zone
strings strings_internal int128 bad_optional_access bad_variant_access throw_delegate
base raw_logging_internal spinlock_wait log_severity strerror""".split()


def absl_libs():
    dirs = ["/usr/lib/x86_64-linux-gnu", "/usr/lib"]
    out = []
    for l in ABSL:
        for d in dirs:
            if os.path.exists(f"{d}/libabsl_{l}.a") or os.path.exists(f"{d}/libabsl_{l}.so"):
                out.append("-labsl_" + l)
                break
    return ["-Wl,--start-group"] + out + ["-Wl,--end-group"]


def sync_overlay():
    """_build/inc/absl = the system's Abseil headers overlaid with our patched copies."""
    inc = OUT / "inc"
    mark = inc / ".stamp"
    h = hashlib.sha256()
    for p in sorted((VERIF / "shim").rglob("*")):
        if p.is_file():
            h.update(str(p.relative_to(VERIF)).encode() + p.read_bytes())
    if mark.exists() and mark.read_text() == h.hexdigest():
        return inc
    if inc.exists():
        shutil.rmtree(inc)
    shutil.copytree("/usr/include/absl", inc / "absl")
    shutil.copytree(VERIF / "shim" / "absl", inc / "absl", dirs_exist_ok=True)
    (inc / "third_party" / "abseil").mkdir(parents=True)
    os.symlink("../../absl", inc / "third_party" / "abseil" / "absl")
    shutil.copytree(VERIF / "shim" / "quipper", inc / "quipper")
    (inc / "base").mkdir()
    shutil.copy(VERIF / "shim" / "base" / "commandlineflags.h", inc / "base")
    mark.write_text(h.hexdigest())
    return inc


LLVM_INC = "/usr/lib/llvm-20/include"
LLVM_LIB = "/usr/lib/llvm-20/lib"

MODES = {
    "gcov": ["-DVERIF_GCOV=1"],
    "llvm": ["-DHAVE_LLVM=1", "-include", "absl/strings/str_format.h", "-isystem", LLVM_INC],
}
PROTOS = {
    "perf_data": (VERIF / "shim" / "quipper", "perf_data"),
    "llvm_propeller_cfg": (REPO, "llvm_propeller_cfg"),
    "llvm_propeller_options": (REPO, "llvm_propeller_options"),
}


def esc(s):
    return str(s).replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


class Ninja:
    def __init__(self):
        self.lines = []
        self.seen = set()

    def rule(self, text):
        self.lines.append(text)

    def build(self, out, text):
        if out in self.seen:
            return
        self.seen.add(out)
        self.lines.append(text)


def gen(targets, san=""):
    """targets: {exe name: dict(mode, harness=[...], repo=[...], protos=[...], libs=[...], defs=[...])}"""
    OUT.mkdir(parents=True, exist_ok=True)
    inc = sync_overlay()
    pb = OUT / "pb"
    pb.mkdir(exist_ok=True)
    base = ["-std=c++17", "-include", "filesystem", "-w", "-I" + str(inc), "-I" + str(REPO),
            "-I" + str(REPO / "util"), "-I" + str(pb), "-I" + str(VERIF / "harness"),
            "-fno-access-control" if False else "", san]
    n = Ninja()
    n.rule("rule cc\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    n.rule("rule link\n  command = g++ $lflags $in -o $out $libs\n")
    n.rule(f"rule protoc\n  command = protoc -I$dir --cpp_out={pb} $in\n")
    for p, (d, name) in PROTOS.items():
        src = d / (name + ".proto")
        if src.exists():
            n.build(p, f"build {esc(pb/name)}.pb.cc {esc(pb/name)}.pb.h: protoc {esc(src)}\n  dir = {d}\n")
    for exe, t in targets.items():
        mode = t["mode"]
        opt = t.get("opt", "-O1")
        defs = " ".join(t.get("defs", []))
        flags = " ".join([opt] + base + MODES[mode] + [defs])
        tag = mode + hashlib.sha1(flags.encode()).hexdigest()[:8]
        orderdeps = " ".join(esc(pb / (PROTOS[p][1] + ".pb.h")) for p in t.get("protos", []))
        objs = []

        def add(src, o, fl):
            n.build(str(o), f"build {esc(o)}: cc {esc(src)} || {orderdeps}\n  flags = {fl}\n")
            objs.append(o)
        for s in t.get("repo", []):
            add(REPO / s, OUT / "obj" / tag / (s.replace("/", "_") + ".o"), flags)
        for s in t.get("harness", []):
            add(VERIF / "harness" / s, OUT / "obj" / (tag + "h") / (s.replace("/", "_") + ".o"), flags)
        for p in t.get("protos", []):
            nm = PROTOS[p][1]
            add(pb / (nm + ".pb.cc"), OUT / "obj" / tag / (nm + ".pb.o"), flags)
        libs = absl_libs() + t.get("libs", []) + ["-lglog", "-lgflags", "-lelf", "-lcrypto", "-lpthread"]
        if t.get("protos"):
            libs.append("-lprotobuf")
        if mode == "llvm":
            libs += ["-L" + LLVM_LIB, "-lLLVM-20"]
        n.build(exe, f"build {esc(OUT/'bin'/exe)}: link {' '.join(esc(o) for o in objs)}\n  lflags = {san}\n  libs = {' '.join(libs)}\n")
    f = OUT / ("build-" + "-".join(sorted(targets))[:80] + ".ninja")
    f.write_text("builddir = %s\n" % OUT + "\n".join(n.lines))
    return f


def build(targets, san="", quiet=True):
    f = gen(targets, san)
    r = subprocess.run(["ninja", "-f", str(f), "-j", JOBS], cwd=OUT, capture_output=True, text=True)
    if r.returncode != 0 or not quiet:
        sys.stderr.write(r.stdout[-20000:] + r.stderr[-5000:])
    return r.returncode == 0
