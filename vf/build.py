"""Builds what the checks need from /repo's working tree, with a content-addressed object cache.

Nothing here looks at time stamps: an object is reused only if the flags, the source and every file
the compiler read for it (its depfile) have the same contents as when the object was made."""

import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = os.cpu_count() or 4

BASE = ["-w", "-DNDEBUG", "-DHAS_BOOST", "-DPBF_SUPPORTED_ENABLED", "-fPIC",
        "-include", "string", "-include", "sstream"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()


_hashes = {}


def file_hash(path):
    if path not in _hashes:
        try:
            with open(path, "rb") as f:
                _hashes[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hashes[path] = "missing"
    return _hashes[path]


def _deps(depfile):
    text = open(depfile).read().replace("\\\n", " ")
    return text.split(":", 1)[1].split()


def compile_one(src, flags):
    """Returns the path of the object file for src."""
    objs = os.path.join(BUILD, "objs")
    os.makedirs(objs, exist_ok=True)
    cc = "gcc" if src.endswith(".c") else "g++"
    fl = [f for f in flags if not (cc == "gcc" and f.startswith("-std=gnu++"))]
    if cc == "gcc":
        out = []
        skip = False
        for f in fl:
            if skip:
                skip = False
                continue
            if f == "-include":
                skip = True
                continue
            out.append(f)
        fl = out
    base = sha(src, " ".join(fl))
    meta = os.path.join(objs, base + ".json")
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            key = sha(base, *[d + file_hash(d) for d in m["deps"]])
            obj = os.path.join(objs, key + ".o")
            if os.path.exists(obj):
                return obj
        except (ValueError, KeyError):
            pass
    tmp = os.path.join(objs, base + ".%d.tmp" % os.getpid())
    cmd = [cc] + fl + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("cannot compile %s\n%s" % (src, p.stdout[-4000:]))
    deps = sorted(set(d for d in _deps(tmp + ".d") if not d.startswith("/usr/")))
    key = sha(base, *[d + file_hash(d) for d in deps])
    obj = os.path.join(objs, key + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    with open(tmp + ".m", "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(tmp + ".m", meta)
    return obj


def compile_all(jobs):
    """jobs: list of (src, flags) -> list of objects"""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


def proto():
    """Generates the protobuf sources; returns their folder."""
    d = REPO + "/core/src/formats/osm/pbf/"
    srcs = [d + "fileformat.proto", d + "osmformat.proto"]
    out = os.path.join(BUILD, "proto", sha(*[file_hash(s) for s in srcs])[:16])
    if not os.path.exists(out + "/osmformat.pb.cc"):
        os.makedirs(out, exist_ok=True)
        subprocess.run(["protoc", "-I" + d, "--cpp_out=" + out] + srcs, check=True)
    return out


SLOW_FIRST = ["MapCssParser.cpp", "OsmXmlParser.cpp", "LSystemParser.cpp", "StyleEvaluator.cpp",
              "TextureAtlasParser.cpp", "GradientUtils.cpp", "GeoStore.cpp", "triangle.c", "shpopen.c"]


def core_sources(pdir):
    core = REPO + "/core"
    srcs = glob.glob(core + "/src/**/*.cpp", recursive=True)
    srcs += glob.glob(core + "/lib/**/*.cpp", recursive=True) + glob.glob(core + "/lib/**/*.c", recursive=True)
    srcs += glob.glob(pdir + "/*.pb.cc")

    def rank(s):
        b = os.path.basename(s)
        return SLOW_FIRST.index(b) if b in SLOW_FIRST else 100
    return sorted(srcs, key=lambda s: (rank(s), s))


def includes(pdir):
    return ["-I" + REPO + "/core/src", "-I" + REPO + "/core/lib", "-I" + REPO + "/core", "-I" + pdir,
            "-I" + VERIF + "/harness/cpp"]


def cpp_driver(name, sources, extra=(), opt="-O1", std="-std=gnu++11", only=None):
    """Links harness sources with the whole core library built from /repo (or the given files of it). Returns the binary."""
    pdir = proto()
    flags = [opt, std] + BASE + list(extra) + includes(pdir)
    hflags = [opt, "-std=gnu++14"] + BASE + list(extra) + includes(pdir)
    srcs = core_sources(pdir) if only is None else [REPO + "/core/" + s for s in only]
    jobs = [(s, hflags) for s in sources] + [(s, flags) for s in srcs]
    # slow core files first, then the harness, then the rest
    order = sorted(range(len(jobs)), key=lambda i: (os.path.basename(jobs[i][0]) not in SLOW_FIRST[:4],
                                                    i >= len(sources), i))
    objs_o = compile_all([jobs[i] for i in order])
    objs = [None] * len(jobs)
    for i, o in zip(order, objs_o):
        objs[i] = o
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    out = os.path.join(bindir, name + "-" + sha(*objs, *extra)[:16])
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = ["g++"] + [e for e in extra if e.startswith("-fsan")] + ["-o", tmp] + objs + \
              ["-lprotobuf", "-lz", "-lpthread", "-ldl", "-lboost_filesystem", "-lboost_system"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cannot link %s\n%s" % (name, p.stdout[-4000:]))
        os.replace(tmp, out)
    return out


def harness(*names):
    return [os.path.join(VERIF, "harness", "cpp", n) for n in names]


def shared_lib():
    """libUtyMap.Shared.so from /repo."""
    pdir = proto()
    flags = ["-O1", "-std=gnu++11"] + BASE + includes(pdir)
    objs = compile_all([(s, flags) for s in core_sources(pdir) + [REPO + "/core/shared/ExportLib.cpp"]])
    bindir = os.path.join(BUILD, "bin", "so-" + sha(*objs)[:16])
    os.makedirs(bindir, exist_ok=True)
    out = bindir + "/libUtyMap.Shared.so"
    if not os.path.exists(out):
        cmd = ["g++", "-shared", "-o", out + ".tmp"] + objs + ["-lprotobuf", "-lz", "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cannot link shared library\n%s" % p.stdout[-4000:])
        os.replace(out + ".tmp", out)
    return out


# the profile which the project file asks for (.NET 3.5)
MCS = ["mcs", "-nostdlib", "-noconfig", "-define:TRACE"] + ["-r:/usr/lib/mono/2.0-api/%s.dll" % d for d in ("mscorlib", "System", "System.Core", "System.Xml")]


def cs_library():
    """Compiles /repo's C# library; returns the folder with the dll and what it references."""
    lib = REPO + "/unity/library"
    srcs = sorted(glob.glob(lib + "/UtyMap.Unity/**/*.cs", recursive=True))
    srcs = [s for s in srcs if "/obj/" not in s and "/bin/" not in s]
    pk = sorted(glob.glob(lib + "/packages/*.dll"))
    key = sha(*[s + file_hash(s) for s in srcs + pk])[:16]
    out = os.path.join(BUILD, "cs", key)
    dll = out + "/UtyMap.Unity.dll"
    if not os.path.exists(dll):
        os.makedirs(out, exist_ok=True)
        for p in pk:
            subprocess.run(["cp", p, out], check=True)
        refs = [r for r in pk if os.path.basename(r) not in ("Moq.dll", "nunit.framework.dll")]
        cmd = MCS + ["-target:library", "-debug-", "-nowarn:0618,0649,0414,0169,1591,0168,0219,0067", "-unsafe", "-out:" + dll + ".tmp"] + \
              ["-r:" + r for r in refs] + srcs
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cannot compile UtyMap.Unity\n%s" % p.stdout[-4000:])
        os.replace(dll + ".tmp", dll)
    return out


def cs_driver(name, sources):
    """Compiles a C# harness as UtyMap.Unity.Tests (the assembly the library shows its internals to)."""
    d = cs_library()
    key = sha(d, *[s + file_hash(s) for s in sources])[:16]
    out = os.path.join(BUILD, "cs", name + "-" + key)
    exe = out + "/UtyMap.Unity.Tests.exe"
    if not os.path.exists(exe):
        os.makedirs(out + "/new", exist_ok=True)   # the name of the file is the name of the assembly
        subprocess.run("cp %s/*.dll %s/" % (d, out), shell=True, check=True)
        refs = [r for r in glob.glob(out + "/*.dll") if os.path.basename(r) not in ("nunit.framework.dll", "UnityEditor.dll")]
        cmd = MCS + ["-debug-", "-nowarn:0618,0649,0414,0169,1591,0168,0219,0067", "-unsafe", "-out:" + out + "/new/UtyMap.Unity.Tests.exe"] + ["-r:" + r for r in refs] + list(sources)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cannot compile %s\n%s" % (name, p.stdout[-4000:]))
        os.replace(out + "/new/UtyMap.Unity.Tests.exe", exe)
    return exe


if __name__ == "__main__":
    print(cpp_driver(sys.argv[1], harness(*sys.argv[2:])))
