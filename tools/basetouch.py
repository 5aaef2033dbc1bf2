#!/usr/bin/env python3
"""lists seeded patches that remove or change no line of the base revision (vcheck does not count them)."""
import subprocess, re, glob, os, sys
BASE = '53f369c'
blame = {}
def lines(f):
    if f not in blame:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout
        blame[f] = [l[:1] == '^' or l.startswith(subprocess.run(['git','-C','/repo','rev-parse',BASE],capture_output=True,text=True).stdout[:7]) for l in o.split('\n')]
    return blame[f]
base_commits = set(subprocess.run(['git', '-C', '/repo', 'rev-list', BASE], capture_output=True, text=True).stdout.split())
for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'patch.diff'))):
    f = None; n = 0; ins = 0
    for l in open(p, errors='replace'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            o = subprocess.run(['git', '-C', '/repo', 'blame', '-l', '--root', 'HEAD', '--', f], capture_output=True, text=True, errors='replace').stdout.split('\n')
            isb = [x.split(' ')[0].lstrip('^') in base_commits for x in o]
            txt = [re.sub(r'^.*?\d+\) ?', '', x, count=1) for x in o]
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m[1]) - 1
        elif f and l.startswith('-') and not l.startswith('---'):
            if isb[ln] and l[1:].strip(): n += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    if not n: print(p.split('/')[-2])
