"""Which planted bugs change only lines that the fix commits added?"""
import glob, os, re, subprocess
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    removed = kept = 0
    path = line = None
    for l in open(p, newline='').read().split('\n'):
        if l.startswith('--- a/'):
            path = l[6:].strip()
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', path], capture_output=True, text=True, errors='replace').stdout.split('\n')
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif line and l.startswith('-'):
            removed += 1
            if blame[line - 1].lstrip('^').startswith(base[:39]) and l[1:].strip() and not l[1:].strip().startswith('#'):
                kept += 1
            line += 1
        elif line and l.startswith(' '):
            line += 1
    if removed and not kept or not removed:
        print(p.split('/')[-2], 'removed', removed, 'of the original', kept)
