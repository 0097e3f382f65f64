"""Which planted bugs change lines of the original repository (base commit ce54d93) rather than lines our fixes added."""
import subprocess, os, re, sys
base = 'ce54d93'
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
for b in sorted(os.listdir('/verif/seeded')):
    d = open('/verif/seeded/%s/patch.diff' % b).read()
    cur = None; old = new = 0; mine = 0; removed = []; added = []
    for l in d.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'): removed.append((cur, old, l[1:])); old += 1
        elif l.startswith('+') and not l.startswith('+++'): added.append(l[1:])
        elif l.startswith(' '): old += 1
    own = [r for r in removed if not sh('git -C /repo blame -l -L %d,%d %s' % (r[1], r[1], r[0])).lstrip('^').startswith('ce54d93')]
    print(b, 'removed', len(removed), 'of ours', len(own), 'added', len(added), '' if not removed or len(own) < len(removed) else '  <== only our lines')
