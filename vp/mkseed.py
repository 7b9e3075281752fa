#!/usr/bin/env python3
"""Build a planted bug: mkseed.py SPEC.py  (SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo (C++), needs, breaks, srcs (optional, compile these with -fsanitize=address instead of linking the library))])
Confirms in a scratch copy: patch builds, stable tests pass, demo 0 without / nonzero with. Not used by any check."""
import sys, os, subprocess, shutil, json, runpy
V='/verif/seeded'; W='/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']; only = set(sys.argv[2:])
    for s in spec:
        if only and s['id'] not in only: continue
        d = '%s/%s' % (V, s['id']); c = '%s/%s' % (W, s['id']); shutil.rmtree(c, True); os.makedirs(W, exist_ok=True); shutil.copytree('/repo', c, symlinks=True)
        ok = True
        for f, old, new in s['edits']:
            t = open(c + '/' + f, encoding='latin1').read(); n = t.count(old)
            if n != 1: print(s['id'], 'edit matches', n, 'times in', f); ok = False; break
            open(c + '/' + f, 'w', encoding='latin1').write(t.replace(old, new))
        if not ok: continue
        base = set(l[6:].split('\t')[0] for l in []) 
        patch = subprocess.run('git diff', shell=True, cwd=c, stdout=subprocess.PIPE).stdout.decode('latin1')
        os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'w', encoding='latin1').write(patch); open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        if s.get('srcs'): comp = 'g++ -std=c++11 -g -O1 -w -fsanitize=address,undefined -DUSE_PTHREADS -I. -Iext/kissfft -Iext/kissfft/tools -Iinclude -Dkiss_fft_scalar=double "$D/demo.cpp" %s -o "$T/demo" -lpthread' % s['srcs']
        else: comp = 'g++ -std=c++11 -O1 -w -DUSE_PTHREADS -I. -Iext/kissfft -Iinclude "$D/demo.cpp" libqm-dsp.a -o "$T/demo" -lpthread'
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after its build: 0 when the behaviour is right\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n%s || exit 3\nexport ASAN_OPTIONS=detect_leaks=0\ntimeout 120 "$T/demo"\n' % comp)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = 'make -s -j8 -C %s -f build/linux/Makefile.linux64 -f /opt/vp/extra.mk libqm-dsp.a' % c
        r = sh(b); 
        if r.returncode: print(s['id'], 'BUILD FAILED', r.stdout[-600:]); continue
        r = sh('make -s -j8 -C %s/tests -f Makefile -f /opt/vp/extra.mk vp-tests && cd tests && for t in test-*; do case $t in *.*) ;; *) ./$t >/tmp/seedwork/t.log 2>&1 || { echo FAIL $t; }; esac; done' % c, cwd=c)
        tests = [l for l in r.stdout.splitlines() if 'FAIL' in l or 'rror' in l]
        d0 = sh('bash %s/demo.sh' % d, cwd='/repo'); d1 = sh('bash %s/demo.sh' % d, cwd=c)
        print(s['id'], s['prop'], 'tests', 'ok' if not tests else tests[:3], 'demo clean', d0.returncode, d0.stdout[-200:] if d0.returncode else '', 'demo bug', d1.returncode, d1.stdout[-120:].replace('\n', ' '), '***' if tests or d0.returncode or not d1.returncode else 'OK'); sys.stdout.flush()
        shutil.rmtree(c, True)
main()
