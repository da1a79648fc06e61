"""python3 tools/auto.py SEED COUNT OUT file:ID,ID,...  [file:IDs...]
Random one-line changes; the ones that build and pass the tests are given to the checks
in turn until one reports a violation.  Survivors are worth a look."""
import sys, re, os, random, subprocess, shutil, json
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
targets = [a.split(":") for a in sys.argv[4:]]
rng = random.Random(seed)
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
D = '/tmp/auto%d' % seed
SWAP = [(r'(?<![<>=!:&|+\-])<(?![=<\-])', '<='), (r'<=', '<'), (r'(?<![<>=!\-])>(?![=>])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'(?<![+=\w"]) \+ (?![+="])', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'\+=', '='), (r'\bnil\b', 'err'), (r'return err\b', 'return nil'), (r'return (\w+), err\b', r'return \1, nil'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b4\b', '2'), (r'\b2\b', '4'), (r'\b8\b', '4'), (r'\b16\b', '8'), (r'\b24\b', '16'), (r'\bdefer ', ''), (r'\bInt16\b', 'Int32'), (r'\bInt32\b', 'Int16'),
        (r'\bInt32\b', 'Int64'), (r'\bInt64\b', 'Int32'), (r'\bString\b', 'Bytes'), (r'if (.*) \{', r'if !(\1) {'), (r'if (.*) \{', r'if false && (\1) {')]


def mutant(lines):
    for _ in range(1000):
        i = rng.randrange(20, len(lines))
        l = lines[i]
        if not l.strip() or l.strip().startswith(('//', 'import', 'package', ')', '}')) and rng.random() < 0.95:
            continue
        k = rng.random()
        if k < 0.2 and not l.rstrip().endswith(('{', '(', ',')) and not l.strip().startswith(('}', ')', 'func', 'type')):
            return lines[:i] + lines[i + 1:], i, 'delete ' + l.strip()
        if k < 0.35 and i + 1 < len(lines) and lines[i + 1].strip() and not any(x.rstrip().endswith(('{', '(')) or x.strip().startswith(('}', ')', 'func')) for x in lines[i:i + 2]):
            return lines[:i] + [lines[i + 1], l] + lines[i + 2:], i, 'swap ' + l.strip() + ' / ' + lines[i + 1].strip()
        if k < 0.5:   # an identifier of a nearby line in place of one of this line
            near = [w for x in lines[max(0, i - 12):i + 12] for w in re.findall(r'\b[A-Za-z_]\w*(?:\.\w+)*', x)]
            ws = re.findall(r'\b[A-Za-z_]\w*(?:\.\w+)+|\bversion\b|\b[A-Z]\w+', l)
            if ws and near:
                a = rng.choice(ws); b = rng.choice([w for w in near if '.' in w or not '.' in a] or near)
                if a != b:
                    return lines[:i] + [l.replace(a, b, 1)] + lines[i + 1:], i, a + ' -> ' + b + ' in ' + l.strip()
            continue
        a, b = rng.choice(SWAP)
        ms = list(re.finditer(a, l))
        if not ms:
            continue
        m = rng.choice(ms)
        n = l[:m.start()] + m.expand(b) + l[m.end():]
        if n != l:
            return lines[:i] + [n] + lines[i + 1:], i, l.strip() + '  =>  ' + n.strip()
    raise SystemExit('no mutant')


seen, done = set(), 0
log = open(out, 'a')
while done < count:
    f, ids = rng.choice(targets)
    src = open('/repo/' + f).read().split('\n')
    new, i, what = mutant(src)
    key = (f, i, what)
    if key in seen:
        continue
    seen.add(key)
    shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo', D)
    open(D + '/' + f, 'w').write('\n'.join(new))
    r = subprocess.run('go build ./... && go vet . ./ring ./message ./message/sizeof && timeout 60 go test . ./ring ./message/... 2>&1', shell=True, cwd=D, env=ENV, capture_output=True, text=True)
    if r.returncode and not (r.returncode and 'FAIL' in r.stdout and all('kafka' in x.split()[1] and x.split()[1].endswith('kafka') for x in r.stdout.split('\n') if x.startswith('FAIL\t'))):
        continue
    if r.returncode:   # the root package needs a broker: only its build counts
        if 'build failed' in r.stdout or 'panic' in r.stdout:
            continue
    done += 1
    res = []
    for c in ids.split(','):
        try:
            r = subprocess.run(['/verif/check', c], env=dict(os.environ, VERIF_REPO=D, VERIF_SEED='1'), capture_output=True, text=True, timeout=900)
            res.append((c, r.returncode))
            if r.returncode == 1:
                break
            if r.returncode not in (0, 1):
                res.append(r.stdout[-200:] + r.stderr[-300:])
                break
        except subprocess.TimeoutExpired:
            res.append((c, 'timeout'))
    verdict = 'caught' if any(x[1] == 1 for x in res if isinstance(x, tuple)) else 'SURVIVED'
    log.write('%s %s:%d %s | %s\n' % (verdict, f, i + 1, what, res)); log.flush()
shutil.rmtree(D, ignore_errors=True)
