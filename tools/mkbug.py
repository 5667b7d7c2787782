#!/usr/bin/env python3
"""mkbug.py: helper to write a planted bug.  usage in Python: mkbug.make(id, prop, needs, breaks, [(file, old, new)...], demo_cpp)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 if the property holds, non-zero if the planted change is present
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-std=c++11 -O1 -g -w -DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -DBOOST_BIND_GLOBAL_PLACEHOLDERS -include boost/logic/tribool_io.hpp"
B=$R/_build/Bin/RelWithDebInfo
g++ $F EXTRA -I$R/include -I$R/_build/Bin "$D/demo.cpp" SRCS -o $T/demo -L$B -lpion -Wl,-rpath,$B -lboost_thread -lboost_system -lboost_filesystem -lboost_date_time -lboost_regex -lssl -lcrypto -lz -ldl -lpthread || exit 3
cd $T && timeout 120 ./demo $B
'''
def make(bid, prop, needs, breaks, edits, demo, extra='', srcs=''):
    d = V + '/seeded/' + bid; os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = '/repo/' + f; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout; assert diff
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/demo.sh', 'w').write(SH.replace('EXTRA', extra).replace('SRCS', srcs)); open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
