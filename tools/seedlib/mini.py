"""A small executor for the scoreboard subset of the commands acacia writes."""
import os, re, shutil, subprocess, sys, tempfile

def w32(n):
    return (n + 2**31) % 2**32 - 2**31

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

class MC:
    def __init__(self, files):
        self.files = files
        self.s = {}
        self.log = []
        self.steps = 0

    def call(self, path):
        path = path.strip('"')
        for line in self.files[path].splitlines():
            line = line.strip()
            if line and not line.startswith('#'):
                self.run(line)

    def run(self, c):
        self.steps += 1
        if self.steps > 20000:
            raise RuntimeError("too many commands")
        t = re.findall(r'"[^"]*"|\S+', c)
        if t[:2] == ['scoreboard', 'objectives']: return
        if t[0] == 'scoreboard' and t[1] == 'players':
            k = tuple(x.strip('"') for x in t[3:5])
            if t[2] == 'set': self.s[k] = int(t[5])
            elif t[2] == 'add': self.s[k] = w32(self.s.get(k, 0) + int(t[5]))
            elif t[2] == 'remove': self.s[k] = w32(self.s.get(k, 0) - int(t[5]))
            elif t[2] == 'operation':
                k2 = tuple(x.strip('"') for x in t[6:8]); op = t[5]
                a, b = self.s.get(k, 0), self.s.get(k2)
                if b is None: return False
                if op == '=': r = b
                elif op == '+=': r = a + b
                elif op == '-=': r = a - b
                elif op == '*=': r = a * b
                elif op == '/=': r = tdiv(a, b) if b else a
                elif op == '%=': r = a - b * tdiv(a, b) if b else a
                elif op == '<': r = min(a, b)
                elif op == '>': r = max(a, b)
                elif op == '><': self.s[k2] = a; r = b
                self.s[k] = w32(r)
            else: raise RuntimeError(c)
        elif t[0] == 'execute':
            i = 1
            while t[i] != 'run':
                neg = t[i] == 'unless'
                assert t[i] in ('if', 'unless') and t[i + 1] == 'score', c
                v = self.s.get(tuple(x.strip('"') for x in t[i + 2:i + 4]))
                if t[i + 4] == 'matches':
                    r = t[i + 5]; bang = r.startswith('!'); r = r.lstrip('!')
                    lo, hi = r.split('..') if '..' in r else (r, r)
                    ok = v is not None and (lo == '' or int(lo) <= v) and (hi == '' or v <= int(hi))
                    ok = v is not None and ok != bang
                    i += 6
                else:
                    w = self.s.get(tuple(x.strip('"') for x in t[i + 5:i + 7]))
                    ok = v is not None and w is not None and {
                        '=': v == w, '<': v < w, '>': v > w, '<=': v <= w, '>=': v >= w}[t[i + 4]]
                    i += 7
                if ok == neg: return
            self.run(' '.join(t[i + 1:]))
        elif t[0] == 'function': self.call(t[1])
        elif t[0] == 'say': self.log.append(' '.join(t[1:]))
        else: raise RuntimeError(c)

def compile(src, *opts, sources=None):
    d = tempfile.mkdtemp()
    try:
        for n, s in dict(sources or {}, **{'main.aca': src}).items():
            open(os.path.join(d, n), 'w').write(s)
        p = subprocess.run([sys.executable, '-m', 'acaciamc', os.path.join(d, 'main.aca'), '-o',
                            os.path.join(d, 'out'), *opts], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=os.getcwd()))
        if p.returncode:
            raise SystemExit("does not compile: " + p.stderr)
        files = {}
        root = os.path.join(d, 'out')
        for dp, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.mcfunction'): continue
                full = os.path.join(dp, f)
                files[os.path.relpath(full, root)[:-len('.mcfunction')]] = open(full).read()
        return files
    finally:
        shutil.rmtree(d, ignore_errors=True)

def go(src, *opts, times=1):
    """Compile, run main; returns the machine."""
    m = MC(compile(src, *opts))
    main = [f for f in m.files if f.endswith('main')][0]
    for _ in range(times):
        m.call(main)
    return m

def expect(got, want, what):
    if got != want:
        print("FAIL", what, "got", got, "want", want)
        sys.exit(1)
    print("ok", what)
