#!/usr/bin/env python3
"""lists seeded bugs whose removed lines do not all come from the original repository"""
import os, re, subprocess, sys
base = 'b23ef3d'
d = sys.argv[1]
for id in sorted(os.listdir(d)):
    f = None; mine = orig = 0
    for l in open(os.path.join(d, id, 'patch.diff'), errors='replace'):
        l = l.rstrip('\n')
        if l.startswith('--- a/'):
            f = l[6:]
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('--- ') or l.startswith('+++'):
            pass
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            if bl[n-1].lstrip('^').startswith(base): orig += 1
            else: mine += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    if mine or not orig:
        print(id, 'orig', orig, 'mine', mine)
