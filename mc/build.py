#!/usr/bin/env python3
"""Build the arkimet library (from /repo's current tree) and the harnesses.

The sources of /repo are mirrored by content into build/src, so that what is
rebuilt depends on what changed in the files and never on timestamps of /repo.
"""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARKI_REPO", "/repo")
BUILD = os.environ.get("ARKI_MC_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
HARN = os.path.join(VERIF, "harness")

CFLAGS = ("-std=c++17 -O1 -g1 -fPIC -pthread -w -D_FILE_OFFSET_BITS=64 "
          "-I/usr/include/lzo -I/usr/include/lua5.1")
LIBS = ("-lgeos_c -llua5.1 -llzo2 -leccodes -larchive -lzip -lz -lcurl "
        "-lsqlite3 -lssl -lcrypto -lstdc++fs -ldl")

PYLIB = "-lwreport -lpython" + sysconfig.get_config_var("LDVERSION")
PYINC = "-I" + sysconfig.get_paths()["include"]

CONFIG = """#pragma once
#define ARKI_HAVE_SPLICE
#define ARKI_IOTRACE
#define CONF_DIR "etc/arkimet"
#define HAVE_GEOS
#define HAVE_GRIBAPI
#define HAVE_LIBARCHIVE
#define HAVE_LIBCURL
#define HAVE_LIBZIP
#define HAVE_LUA
#define HAVE_LZO2
#define PACKAGE_VERSION "1.66"
#define POSTPROC_DIR "/nonexistent/arkimet"
"""


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as fd:
            if fd.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".new", "wb") as fd:
        fd.write(data)
    os.replace(path + ".new", path)
    return True


def mirror(src, dst, keep=()):
    """Make dst hold the same C++ files as src, rewriting only what differs."""
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if not d.startswith(".") and d != "_build"]
        for f in files:
            if not f.endswith((".cc", ".h", ".tcc", ".ll", ".yy", ".build", ".l", ".y", ".hh")):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            seen.add(rel)
            with open(p, "rb") as fd:
                write_if_changed(os.path.join(dst, rel), fd.read())
    for root, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in seen and rel not in keep:
                os.unlink(os.path.join(root, f))


def lib_sources():
    """Library sources, as listed by /repo's own build files."""
    with open(os.path.join(SRC, "arki/meson.build")) as fd:
        txt = fd.read()
    m = re.search(r"libarkimet_sources\s*=\s*\[(.*?)\]", txt, re.S)
    res = re.findall(r"'([\w./-]+\.cc)'", m.group(1))
    for cond, block in re.findall(r"^if (\w+)\.found\(\)\s*\n((?:\s+.*\n)*?)endif", txt, re.M):
        if cond in ("eccodes_dep", "libcurl_dep", "libarchive_dep", "libzip_dep", "lua_dep", "geos_dep"):
            for add in re.findall(r"libarkimet_sources \+= \[(.*?)\]", block, re.S):
                res += re.findall(r"'([\w./-]+\.cc)'", add)
    sub = os.path.join(SRC, "arki/matcher/reftime/meson.build")
    with open(sub) as fd:
        txt = fd.read()
    for f in re.findall(r"'([\w./-]+\.cc)'", txt):
        if os.path.exists(os.path.join(SRC, "arki/matcher/reftime", f)) and not f.endswith("-test.cc"):
            res.append("matcher/reftime/" + f)
    out = []
    for r in res:
        if r.startswith("data/bufr") or r.startswith("data/vm2") or r == "utils/vm2.cc":
            continue
        if r not in out and os.path.exists(os.path.join(SRC, "arki", r)):
            out.append(r)
    return out


def generate():
    os.makedirs(BUILD, exist_ok=True)
    for sub in ("arki",):
        mirror(os.path.join(REPO, sub), os.path.join(SRC, sub),
               keep=("libconfig.h",))
    write_if_changed(os.path.join(SRC, "arki/libconfig.h"), CONFIG)
    write_if_changed(os.path.join(SRC, "config.h"), CONFIG)
    rt = os.path.join(SRC, "arki/matcher/reftime")
    lex = os.path.basename(glob.glob(os.path.join(rt, "*.ll"))[0])
    yy = os.path.basename(glob.glob(os.path.join(rt, "*.yy"))[0])
    n = []
    w = n.append
    w("ninja_required_version = 1.5\nbuilddir = .")
    inc = "-Isrc -Isrc/arki -Igen -I%s" % HARN
    w(f"cflags = {CFLAGS} {inc}")
    w("rule cxx\n  command = g++ $cflags $xflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule pch\n  command = g++ $cflags -x c++-header -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule so\n  command = g++ -shared -o $out $in -Wl,-z,defs -Wl,-soname,$soname {LIBS} -pthread")
    w(f"rule exe\n  command = g++ -rdynamic -o $out $in -L. -larkimc -Wl,-rpath,'$$ORIGIN' $more {LIBS} -pthread")
    w("rule flex\n  command = flex -o gen/reftime-lex.cc --header-file=gen/reftime-lex.h $in")
    w("rule bison\n  command = bison --defines=gen/reftime-parse.hh --output=gen/reftime-parse.cc $in")
    w(f"build gen/reftime-lex.cc gen/reftime-lex.h: flex src/arki/matcher/reftime/{lex}")
    w(f"build gen/reftime-parse.cc gen/reftime-parse.hh: bison src/arki/matcher/reftime/{yy}")
    gen = "gen/reftime-lex.h gen/reftime-parse.hh"
    # precompiled standard headers
    shutil.copyfile(os.path.join(HARN, "pch.h"), os.path.join(BUILD, "pch.h.new"))
    with open(os.path.join(BUILD, "pch.h.new"), "rb") as fd:
        write_if_changed(os.path.join(BUILD, "pch.h"), fd.read())
    w("build pch.h.gch: pch pch.h")
    objs = []
    for s in lib_sources():
        o = "o/lib/" + s[:-3].replace("/", "_") + ".o"
        oo = f"build {o}: cxx src/arki/{s} | pch.h.gch || {gen}\n  xflags = -include pch.h -Winvalid-pch"
        w(oo)
        objs.append(o)
    for s in ("reftime-lex", "reftime-parse"):
        w(f"build o/lib/{s}.o: cxx gen/{s}.cc || {gen}\n  xflags = -Isrc/arki/matcher/reftime")
        objs.append(f"o/lib/{s}.o")
    w(f"build o/lib/stubs.o: cxx {HARN}/stubs.cc | pch.h.gch || {gen}\n  xflags = -include pch.h")
    objs.append("o/lib/stubs.o")
    w(f"build libarkimc.so: so {' '.join(objs)}\n  soname = libarkimc.so")
    common = []
    for f in sorted(glob.glob(os.path.join(HARN, "common_*.cc"))):
        b = os.path.basename(f)[:-3]
        xf = "-U_FILE_OFFSET_BITS -fno-builtin" if b == "common_sys" else "-include pch.h"
        w(f"build o/h/{b}.o: cxx {f} | pch.h.gch || {gen}\n  xflags = {xf}")
        common.append(f"o/h/{b}.o")
    exes = []
    # Parts of the Python extension that do not use Python
    python_objs = []
    for s in ("arki-scan/dispatch", "arki-scan/results", "cmdline/processor"):
        o = "o/lib/python_" + s.replace("/", "_") + ".o"
        w(f"build {o}: cxx src/arki/python/{s}.cc | pch.h.gch || {gen}\n  xflags = -include pch.h {PYINC}")
        python_objs.append(o)
    # All of the Python extension
    with open(os.path.join(SRC, "arki/python/meson.build")) as fd:
        ext = re.findall(r"'([\w./-]+)\.cc'", re.search(r"py_arkimet_sources\s*=\s*files\((.*?)\)", fd.read(), re.S).group(1))
    ext_objs = []
    for s in ext:
        o = "o/lib/python_" + s.replace("/", "_") + ".o"
        if s == "arki-bufr-prepare":
            continue  # DB-All.e is not here
        if o not in python_objs:
            w(f"build {o}: cxx src/arki/python/{s}.cc | pch.h.gch || {gen}\n  xflags = -include pch.h {PYINC}")
        ext_objs.append(o)
    for f in sorted(glob.glob(os.path.join(HARN, "mc_*.cc"))):
        b = os.path.basename(f)[:-3]
        px = f" {PYINC}" if b in ("mc_dispatch", "mc_output", "mc_cli", "mc_server") else ""
        w(f"build o/h/{b}.o: cxx {f} | pch.h.gch || {gen}\n  xflags = -include pch.h{px}")
        more = python_objs if b in ("mc_dispatch", "mc_output") else []
        if b in ("mc_cli", "mc_server"):
            w(f"build {b}: exe o/h/{b}.o {' '.join(ext_objs + common)} | libarkimc.so\n  more = {PYLIB}")
            exes.append(b)
            continue
        w(f"build {b}: exe o/h/{b}.o {' '.join(more + common)} | libarkimc.so")
        exes.append(b)
    w("build all: phony libarkimc.so " + " ".join(exes))
    w("default all")
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(n) + "\n")


def build(targets=("all",), quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        r = subprocess.run(["ninja", "-C", BUILD, *targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            lines = r.stdout.splitlines()
            for i, l in enumerate(lines):
                if l.startswith("FAILED") or "error" in l or "undefined reference" in l:
                    sys.stdout.write(l[:300] + "\n")
            return False
        if not quiet:
            sys.stdout.write(r.stdout.splitlines()[-1][:200] + "\n")
    return True


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or ["all"], quiet=False) else 1)
