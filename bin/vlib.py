"""Shared machinery of the checks: building from /repo, running the harness, TLC, evidence, verdicts."""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
THOROUGH = TIER == 'thorough'
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')
CARGO_ENV = dict(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
                 CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')


class ToolError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        k = json.load(open(KNOWN_FILE))
        self.findings = [f for f in k['findings'] if f['property'] == pid]

    # ---- reporting
    def sample(self, *xs):
        for x in xs:
            if len(self.cov['samples']) < 8:
                self.cov['samples'].append(x)

    def violation(self, what, data):
        n = len(self.violations)
        path = os.path.join(self.work, 'violation-%d.json' % n)
        if n < 50:
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'what': what, 'seed': SEED, 'tier': TIER, 'data': data}, f,
                          indent=1, ensure_ascii=False)
        self.violations.append((what, path, data))

    def known(self, finding, ev=None):
        self.known_seen.setdefault(finding, ev)

    def finish(self):
        self.cov['known_findings_seen'] = len(self.known_seen)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for what, path, data in self.violations[:20]:
            print('%s: %s' % (what, json.dumps(data, ensure_ascii=False)[:500]))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]))
            return 1
        print('OK property=%s tier=%s wall=%.1fs %s' % (self.pid, TIER, time.time() - self.t0,
              json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})))
        return 0


# ---- building
def repo_sources():
    out = []
    for d in ('cldr_pluralrules_parser', 'make_pluralrules', 'intl_pluralrules'):
        base = os.path.join(REPO, d)
        for root, dirs, files in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ('target', '.git')]
            for f in files:
                if f.endswith(('.rs', '.toml', '.json')):
                    out.append(os.path.join(root, f))
    return sorted(out)


def repo_hash():
    h = hashlib.sha256()
    for p in repo_sources():
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
    return h.hexdigest()


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                              universal_newlines=True, errors='replace', **kw)
    except subprocess.TimeoutExpired:
        raise ToolError('timeout: %s' % ' '.join(cmd)[:300])


def cargo(args, cwd, target, timeout=600, env=None):
    e = dict(os.environ, **CARGO_ENV)
    e['CARGO_TARGET_DIR'] = target
    e.update(env or {})
    return run(['cargo'] + args, timeout, cwd=cwd, env=e)


def fresh(target, names, manifest_dir):
    """cargo decides by time stamps; make sure that changed contents are seen"""
    stamp = os.path.join(target, 'repo.sha256')
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        if old is not None or os.path.exists(os.path.join(target, 'release')):
            for n in names:
                cargo(['clean', '--release', '--offline', '-p', n], manifest_dir, target)
        os.makedirs(target, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(h)


def build_harness():
    d = os.path.join(VERIF, 'harness')
    fresh(TARGET, ['vh', 'vcli', 'intl_pluralrules', 'make_pluralrules', 'path+file:///repo/cldr_pluralrules_parser'], d)
    p = cargo(['build', '--release', '--offline', '--workspace'], d, TARGET)
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + p.stderr[-3000:])
    return os.path.join(TARGET, 'release', 'vh')


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(chk, args, timeout=None):
    """Runs the harness; a crash or hang of the code under test is a violation of the property.
    Returns the statistics, or None after a violation."""
    vh = os.path.join(TARGET, 'release', 'vh')
    timeout = timeout or (7200 if THOROUGH else 600)
    p = run([vh] + args + ['--seed', str(SEED), '--tier', TIER], timeout, preexec_fn=limits, cwd=chk.work, env=dict(os.environ, TMPDIR=chk.work))
    for line in p.stdout.splitlines():
        if line.startswith('HANG '):
            chk.violation('a call does not return', {'command': args, 'input': json.loads(line[5:])})
            return None
    if p.returncode < 0 and p.returncode != -9:
        chk.violation('the code under test ends the process', {'command': args, 'signal': -p.returncode, 'stderr': p.stderr[-1500:]})
        return None
    if p.returncode != 0:
        raise ToolError('harness failed (%d): %s\n%s' % (p.returncode, args, p.stderr[-3000:]))
    for line in p.stdout.splitlines():
        if line.startswith('STATS '):
            return json.loads(line[6:])
    raise ToolError('no statistics from harness: %s' % args)


# ---- TLC
def tlc(chk, module, env=None, workers=8, extra=(), timeout=600, cfg=None):
    meta = os.path.join(chk.work, 'tlc-' + module + '-%d' % (time.time() * 1e6))
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(CLDR_CARD=os.path.join(SPEC, 'data/cldr37_cardinals.json'),
             CLDR_ORD=os.path.join(SPEC, 'data/cldr37_ordinals.json'),
             KNOWN=KNOWN_FILE, RECIPE_OUT=os.path.join(chk.work, 'recipe.json'))
    e.update(env or {})
    os.makedirs(meta)
    e['TLC_TMP'] = meta
    p = run([os.path.join(VERIF, 'bin', 'tlc'), '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
             '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla'], timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


def states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (None, None)


def model(chk, module, env=None, timeout=600, extra=(), cfg=None):
    """Exhaustive model checking of a specification module; must succeed."""
    out = tlc(chk, module, env, timeout=timeout, extra=extra, cfg=cfg)
    gen, dist = states(out)
    if 'Model checking completed. No error has been found.' not in out or dist is None:
        raise ToolError('model %s failed:\n%s' % (module, out[-3000:]))
    chk.cov['states'] += dist
    chk.cov['transitions'] += gen
    return out


def judge(chk, module, trace, env=None, timeout=800, cfg=None):
    """Validates a recorded trace against the specification. Returns (events, bad, known):
    bad: [(index, verdict)], known: [index], indexes into events."""
    events = [json.loads(x) for x in open(trace)]
    if not events:
        return events, [], []
    out = tlc(chk, module, dict(env or {}, TRACE=trace), timeout=timeout, cfg=cfg)
    gen, dist = states(out)
    cf = open(os.path.join(SPEC, (cfg or module) + '.cfg')).read()
    chunks = int(re.search(r'Chunks = (\d+)', cf).group(1))
    if 'Model checking completed. No error has been found.' not in out or dist != len(events) + chunks:
        raise ToolError('trace validation by %s did not complete (%s states for %d events):\n%s' % (
            module, dist, len(events), out[-3000:]))
    bad = [(int(a) - 1, b) for a, b in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out)]
    known = [int(a) - 1 for a in re.findall(r'<<"KNOWN", (\d+)>>', out)]
    chk.cov['states'] += dist
    chk.cov['transitions'] += gen
    chk.cov['traces_validated_against_impl'] += len(events)
    bad = sorted(set(bad))
    for k, v in bad[:30]:
        chk.violation(v, events[k])
    return events, bad, sorted(set(known))
