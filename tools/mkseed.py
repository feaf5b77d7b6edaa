#!/usr/bin/env python3
"""tools/mkseed.py FILE.py ...: build planted bugs.  FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)], demo=C++ body of
main (CHECK(cond) fails), needs, what)].  Every seed is tried in a scratch copy of /repo: it must compile, keep the stable tests passing, and
its demonstration must pass without and fail with the change."""
import sys, os, json, subprocess, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
clang++-18 -std=c++14 -O1 -fms-extensions -Wno-nonportable-include-path -isystem /opt/vp/shim/include -include msvc_compat.h -I"$PWD/ColorMagic" "$d/demo.cpp" _build/libColorMagic.a -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
PRE = '''#include "stdafx.h"
%s
#include <cstdio>
#include <cmath>
#include <vector>
using namespace color_space;
using namespace color_manipulation;
static int fails = 0;
static void check(bool ok, const char* what) { if (!ok) { std::printf("FAILED: %%s\\n", what); ++fails; } }
#define CHECK(c) check((c), #c)
static bool near(double a, double b, double tol = 1e-3) { return std::isfinite(a) && std::fabs(a - b) <= tol; }
int main()
{
%s
	return fails ? 1 : 0;
}
'''

def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    blame = {}
    bad = 0
    for fn in sys.argv[1:]:
        for s in runpy.run_path(fn)['SEEDS']:
            r = one(s, base)
            print('%-28s %s' % (s['id'], r), flush=True)
            bad += r != 'ok'
    sys.exit(bad)

def one(s, base):
    out = os.path.join(V, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        w = os.path.join(tmp, 'repo')
        sh('git -C /repo worktree prune; git clone -q /repo %s' % w)
        for path, old, new in s['edits']:
            p = os.path.join(w, path)
            t = open(p, newline='', encoding='latin-1').read()
            if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1: return 'edit matches %d times in %s: %s' % (t.count(old), path, old[:80])
            # the changed lines must be original
            open(p, 'w', newline='', encoding='latin-1').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE).stdout
        orig = orig_lines(w, diff)
        if orig: return 'changes a line added by a fix commit: ' + orig
        os.makedirs(os.path.join(tmp, 'd'))
        d = os.path.join(tmp, 'd')
        open(d + '/demo.cpp', 'w').write(PRE % ('\n'.join('#include "%s"' % i for i in s.get('inc', INC)), s['demo']))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        # build the copy: shim with the path replaced
        shutil.copytree('/opt/vp/shim', tmp + '/shim')
        cm = open(tmp + '/shim/CMakeLists.txt').read().replace('set(REPO /repo)', 'set(REPO %s)' % w)
        open(tmp + '/shim/CMakeLists.txt', 'w').write(cm)
        b = sh('CC=/usr/bin/clang-18 CXX=/usr/bin/clang++-18 cmake -S %s/shim -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C %s/_build' % (tmp, w, w))
        if b.returncode: return 'build fails: ' + b.stdout[-1500:]
        sh('cd %s/_build && timeout 600 ./ColorMagic_Test --gtest_output=xml:%s/g.xml' % (w, tmp))
        sh('python3 /opt/vp/results.py %s/t.json junit:%s/g.xml' % (tmp, tmp))
        passed = set(json.load(open(tmp + '/t.json'))['passed'])
        if base - passed: return 'tests fail: %s' % sorted(base - passed)[:4]
        g = sh('cd /repo && bash %s/demo.sh' % d)
        if g.returncode: return 'demo fails on the unchanged tree: ' + g.stdout[-1500:]
        m = sh('cd %s && bash %s/demo.sh' % (w, d))
        if m.returncode == 0: return 'demo passes with the change'
        if m.returncode == 3: return 'demo does not compile with the change ' + m.stdout[-500:]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        shutil.copy(d + '/demo.cpp', out)
        shutil.copy(d + '/demo.sh', out)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(out + '/meta.json', 'w'), indent=1)
        return 'ok'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def orig_lines(w, diff):
    """a removed line that my commits added (not in the base commit's version of the file)"""
    cur = None
    for l in diff.decode('utf8', 'replace').splitlines():
        if l.startswith('--- a/'): 
            cur = l[6:].strip()
            basefile = set(x.rstrip('\r\n') for x in subprocess.run(['git', '-C', w, 'show', '08935f3:' + cur], stdout=subprocess.PIPE).stdout.decode('utf8', 'replace').split('\n'))
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].rstrip('\r') not in basefile: return l[1:]
    return ''

INC = ['manipulation/color_converter.h', 'manipulation/color_calculation.h', 'manipulation/color_blend.h', 'manipulation/color_combinations.h', 'manipulation/color_adjustments.h', 'manipulation/color_distance.h', 'manipulation/chromatic_adaptation.h', 'manipulation/porter_duff.h']
if __name__ == '__main__': main()
