#!/usr/bin/env python3
"""Developer tool (no check uses it): turns a bug description into /verif/seeded/<id>/.

usage: newbug.py SPEC.py     SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo={file: text}, lang='cpp'|'java'|'sh', ...)]
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

CPP_SH = r'''#!/bin/bash
# Run with cwd = the repository root. Exit 0 iff the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 99
trap 'rm -rf -- "$w"' EXIT
src=$(ls "$repo"/cpp/*.cpp | grep -v -e 'Test\.cpp$' -e EcdsaOpCount)
@COMPILER@ -std=c++11 @FLAGS@ -I "$repo/cpp" -o "$w/demo" "$here/demo.cpp" $src @EXTRA@ || exit 98
timeout 280 "$w/demo"
'''
JAVA_SH = r'''#!/bin/bash
# Run with cwd = the repository root. Exit 0 iff the behaviour is right.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 99
trap 'rm -rf -- "$w"' EXIT
src=$(ls "$repo"/java/io/nayuki/bitcoin/crypto/*.java | grep -v 'Test\.java$')
javac -d "$w" "$here/Demo.java" $src || exit 98
timeout 280 java @FLAGS@ -cp "$w" @MAIN@
'''

def make(b):
    out = '/verif/seeded/' + b['id']
    wt = tempfile.mkdtemp(prefix='newbug.')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', wt + '/r'], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(wt, 'r', f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %r occurs %d times in %s' % (b['id'], old, t.count(old), f))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', wt + '/r', 'diff'], check=True, stdout=subprocess.PIPE).stdout
    finally:
        shutil.rmtree(wt)
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'wb').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    if b['lang'] == 'cpp':
        sh = CPP_SH.replace('@COMPILER@', b.get('cc', 'g++')).replace('@FLAGS@', b.get('flags', '-O1')).replace('@EXTRA@', b.get('extra', ''))
    elif b['lang'] == 'java':
        sh = JAVA_SH.replace('@FLAGS@', b.get('flags', '')).replace('@MAIN@', b.get('main', 'Demo'))
    else:
        sh = b['sh']
    open(out + '/demo.sh', 'w').write(sh); os.chmod(out + '/demo.sh', 0o755)
    for n, t in b['demo'].items():
        open(os.path.join(out, n), 'w').write(t)
    print('made', out)

for s in sys.argv[1:]:
    for b in runpy.run_path(s)['BUGS']:
        make(b)
