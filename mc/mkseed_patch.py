#!/usr/bin/env python3
"""Make planted bugs: used as a library by one-off scripts (edits are applied
in /repo, the diff saved, and undone)."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PRE = '''#include "common_ds.h"
#include "mcsys.h"
#include <filesystem>
using namespace mc;
using namespace mc::ds;
'''


def seed(id, prop, needs, breaks, edits, demo=None):
    import mkseed
    try:
        for f, a, b in edits:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        d = '/verif/seeded/' + id
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo:
        open(d + '/demo.cc', 'w').write(demo)
    mkseed.main(id)
