#!/usr/bin/env python3
"""Prepare the directory of a planted bug: mkseed.py ID

Copies beside the demo what it needs to build: the demo is demo.cc, that uses
the common harness code and is linked with the library built in /repo.
"""
import glob
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SH = """#!/bin/bash
# Build the demonstration against the library built in /repo, and run it
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC="-I$H/h -I$R -I$R/arki -I$R/_build -I$R/_build/arki"
for f in "$H"/h/*.cc "$H"/demo.cc; do
    X=; case $f in */common_sys.cc) X="-U_FILE_OFFSET_BITS -fno-builtin";; *) X="-D_FILE_OFFSET_BITS=64 -include $H/h/pch.h";; esac
    g++ -std=c++17 -O0 -w $X $INC -c "$f" -o "$T/$(basename "$f").o" &
done
wait
g++ -rdynamic -o "$T/demo" "$T"/*.o -Wl,--start-group "$R/_build/arki/libarkimet.a" -Wl,--end-group LIBS -pthread || exit 2
mkdir "$T/run"
cd "$T/run" && timeout 120 "$T/demo" --prop DEMO --out "$T/out.json" --jobs 1
"""


def main(name):
    import build
    d = os.path.join(VERIF, "seeded", name)
    os.makedirs(d + "/h", exist_ok=True)
    for f in glob.glob(VERIF + "/harness/common_*.cc") + glob.glob(VERIF + "/harness/*.h") + [VERIF + "/harness/stubs.cc"]:
        shutil.copy(f, d + "/h/")
    with open(d + "/demo.sh", "w") as fd:
        fd.write(SH.replace("LIBS", build.LIBS))
    os.chmod(d + "/demo.sh", 0o755)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    for n in sys.argv[1:]:
        main(n)
