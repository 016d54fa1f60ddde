"""Development aid: try edits (bugs and behaviour-preserving refactorings) on a scratch copy of /repo
and show which rules react.  usage: mut.py FILE.py [name...] [-p PID,PID]
FILE defines M = [(name, 'bug'|'same', path, old, new), ...]; old/new may be lists (several edits)."""
import sys, os, subprocess, time
sys.path.insert(0, '/verif/engine')
MR = os.environ.get('MR', '/tmp/mr')
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=MR)
IGN = set(l.split()[2].split("=")[1] for l in open("/verif/known-findings.txt") if l.startswith("finding:"))
def main():
    a = sys.argv[1:]; pids = ''
    if '-p' in a: i = a.index('-p'); pids = a[i + 1].replace(',', ' '); del a[i:i + 2]
    full = '-v' in a
    a = [x for x in a if x != '-v']
    g = {}; exec(open(a[0]).read(), g)
    for m in g['M']:
        name, kind, path, old, new = m
        if a[1:] and name not in a[1:]: continue
        sh('git checkout -q -- .')
        olds, news = ([old], [new]) if isinstance(old, str) else (old, new)
        paths = [path] * len(olds) if isinstance(path, str) else path
        ok = True
        for p, o, n in zip(paths, olds, news):
            s = open(MR + '/' + p).read()
            if s.count(o) < 1: print(name, 'PATTERN NOT FOUND', o[:60]); ok = False; break
            open(MR + '/' + p, 'w').write(s.replace(o, n, 1) if '@@all' not in name else s.replace(o, n))
        if not ok: continue
        t = time.time()
        r = subprocess.run('VERIF_REPO=%s python3 /verif/tools/rr.py %s %s' % (MR, pids, '-v' if full else ''), shell=True, capture_output=True, text=True)
        out = r.stdout; hits = []
        cur = None
        for l in out.splitlines():
            w = l.split()
            if w and w[0][0].isupper() and len(w[0]) == 3 and '/' in l[:12]: cur = w[0]
            if l.startswith('   VIOL') and len(w) > 1: w[1] in IGN or hits.append(cur + ":" + w[1])
        tag = {('bug', True): 'caught', ('bug', False): 'MISSED', ('same', True): 'FALSE ALARM', ('same', False): 'quiet'}[(kind, bool(hits))]
        if r.returncode: tag = 'ERROR'; hits = [r.stderr[-600:]]
        print('%-12s %-30s %4.0fs %s' % (tag, name, time.time() - t, ' '.join(hits)[:400]), flush=True)
        if full: print(out[:8000])
    sh('git checkout -q -- .')
main()
