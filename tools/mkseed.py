#!/usr/bin/env python3
"""mkseed.py ID PROPERTY  (stdin: JSON {edits:[[file,old,new]..], needs, what, demo?:sh, files?:{name:text}}) -> seeded/ID"""
import json, os, subprocess, sys, shutil
pid, prop = sys.argv[1:3]
d = eval(sys.stdin.read())
out = os.path.join('/verif/seeded', pid)
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
W = '/tmp/w/r'
subprocess.run('rm -rf /tmp/w/r && mkdir -p /tmp/w && git clone -q /repo /tmp/w/r', shell=True, check=True)
for f, a, b in d['edits']:
    p = os.path.join(W, f); s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, 'w').write(s.replace(a, b))
open(out + '/patch.diff', 'w').write(subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, check=True).stdout.decode())
demo = d.get('demo') or '''#!/bin/bash
# exit 0: behaves, 1: broken.  Run with cwd = repository root.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -O1 -w %s -Iinclude -Ilib -Ilib/FSE/lib -I"$H" "$H/demo.cpp" src/settings.cpp %s -o "$D/demo" -lpthread -ldl || exit 2
cd "$D" && timeout 120 ./demo
''' % (d.get('flags', ''), d.get('srcs', ''))
open(out + '/demo.sh', 'w').write(demo); os.chmod(out + '/demo.sh', 0o755)
for n, t in d.get('files', {}).items():
    open(os.path.join(out, n), 'w').write(t)
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['what']}, open(out + '/meta.json', 'w'), indent=1)
