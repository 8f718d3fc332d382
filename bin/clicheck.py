"""C16, C18, C19, C20, C21: the generator as a function and as a command."""
import random, signal, subprocess, resource, stat, threading
from vlib import *
from genlib import *
from gencheck import spread, respell, codes, SAMPLES

CARD1 = {'en': {'one': 'i = 1 and v = 0 @integer 1', 'other': ' @integer 0'}, 'pl': {'few': 'v = 0 and i % 10 = 2..4', 'many': 'v = 0 and i != 1', 'one': 'i = 1', 'other': ''},
         'fr': {'one': 'i = 0,1', 'other': ''}, 'pt-PT': {'one': 'i = 1 and v = 0', 'other': ''}, 'root': {'other': ''}}
CARD2 = {'de': {'one': 'i = 1', 'other': ''}, 'cy': {'zero': 'n = 0', 'one': 'n = 1', 'two': 'n = 2', 'few': 'n = 3', 'many': 'n = 6', 'other': ''}}
ORD = {'en': {'one': 'n % 10 = 1', 'two': 'n % 10 = 2', 'other': ''}, 'uk': {'few': 'n % 10 = 3', 'other': ''}, 'ca': {'one': 'n = 1,3', 'other': ''}}
NOTDATA = ['', '{}', '[]', 'null', '{"supplemental": {}}', 'plural rules', '{"supplemental": {"version": {}}}',
           '{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-cardinal": []}}',
           '{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-cardinal": {"en": {"pluralRule-count-one": 1}}}}',
           '{"supplemental": {"version": {"_unicodeVersion": "13", "_cldrVersion": "37"}, "plurals-type-cardinal": {"en": {"pluralRule-count-one": "n = 1"}}}']


def generate(chk, reqs, name='gen'):
    rf, of = os.path.join(chk.work, name + '-req.ndjson'), os.path.join(chk.work, name + '-ans.ndjson')
    with open(rf, 'w') as f:
        for k, r in enumerate(reqs):
            f.write(json.dumps(dict(r, id=k)) + '\n')
    st = harness(chk, ['gen', '--requests', rf, '--out', of])
    if not st:
        return None
    return [json.loads(x) for x in open(of)]


def file_of(v, kind, rng=None):
    if kind == 'x':
        return rng.choice(NOTDATA)
    return content(v, rng, **{'c': {'cardinal': CARD1}, 'C': {'cardinal': CARD2}, 'o': {'ordinal': ORD}, 'b': {'cardinal': CARD2, 'ordinal': ORD},
                         'n': {}, 'e': {'cardinal': {}}}[kind])


# pairs of versions that some careless comparison takes for the same (or in the wrong order)
PAIRS = [('35', '350'), ('1', '2'), ('37', '38'), ('9', '10'), ('0', '1'), ('2147483647', '37'), ('41', '14'), ('4294967296', '37'), ('65536', '65537'),
         ('37', '293'), ('37', '165'), ('37', '65573'), ('37', '4294967333'), ('37', '137'), ('37', '371'), ('37', '3'), ('37', '7'), ('99', '100'), ('0', '256'),
         ('36', '1036'), ('10', '100'), ('2147483648', '0'), ('37', '73'), ('9223372036854775807', '9223372036854775808'), ('18446744073709551615', '37')]
# versions that are not whole numbers of 64 bits
NOTWHOLE = ['38.1', '37.0', '', '-5', '-37', 'alpha', '37a', 'v37', '37-beta', '0x25', '1e2', '37.', '.37', '37,0', '3_7', '42.0.0', 'release-37', '37/38',
            '18446744073709551616', '99999999999999999999999', '-9223372036854775808', '--37', '37!', 'NaN', '#', '37e', '37u8', '３７', '٣٧']


def c16(pid):
    chk = Check(pid, 'model_checking')
    out = model(chk, 'CombineModel', cfg='CombineModelDeep' if THOROUGH else 'CombineModel')
    seqs = [[tuple(f.split(':')) for f in s.split()] for s in sorted(set(re.findall(r'^"FILES (.*)"$', out, re.M)))]
    if len(seqs) < 2000:
        raise ToolError('file sequences missing')
    chk.cov['spec_sequences'] = len(seqs)
    # further versions, so that not only two numbers are tried
    rng = random.Random(SEED)
    ren = {}
    for s in seqs:
        if '38.1' in [v for v, k in s]:
            n = rng.choice(NOTWHOLE)
            s = [(n if v == '38.1' else v, k) for v, k in s]
        ren[tuple(s)] = s
        if rng.random() < .2:
            a, b = rng.choice(PAIRS)
            t = [({'36': a, '37': b}.get(v, v), k) for v, k in s]
            ren[tuple(t)] = t
    # longer lists, with at most one odd file, anywhere
    for _ in range(20000 if THOROUGH else 400):
        v, w = rng.choice(PAIRS + [('36', '37'), ('37', '36')] + 3 * [('37', rng.choice(NOTWHOLE))] + [(rng.choice(NOTWHOLE), '37')])
        t = [(v, k) for k in rng.choice(['co', 'oc', 'b', 'c', 'o', 'e', 'eo', 'C', '']) + 'n' * rng.choice([1, 2, 3, 4, 6, 9, 15, 40, 130, 300])]
        rng.shuffle(t)
        if rng.random() < .6:
            j = rng.choice([0, len(t) - 1, rng.randrange(len(t))])
            t[j] = rng.choice([(w, t[j][1]), (w, 'n'), (v, 'x'), (v, 'c'), (v, 'o'), (v, 'b')])
        ren[tuple(t)] = t
    seqs = list(ren.values())
    build_harness()
    reqs = [{'files': [file_of(v, k, rng) for v, k in s], 'times': 4} for s in seqs]
    d = os.path.join(REPO, 'intl_pluralrules', 'cldr_data')
    ship = [open(os.path.join(d, 'cldr_pluralrules_%s.json' % t)).read() for t in ('cardinals', 'ordinals')]
    extra = [{'files': ship, 'times': 3}, {'files': ship[::-1], 'times': 3}]
    ans = generate(chk, reqs + extra)
    if ans is None:
        return chk.finish()
    # another process: hash seeds and addresses differ
    ans2 = generate(chk, reqs[:300] + extra, 'gen2')
    if ans2 is None:
        return chk.finish()
    other = dict(zip(list(range(300)) + [len(reqs), len(reqs) + 1], ans2))
    first = {}
    trace = os.path.join(chk.work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for k, (s, a) in enumerate(zip(seqs + [[('37', 'c'), ('37', 'o')], [('37', 'o'), ('37', 'c')]], ans)):
            key = (k >= len(seqs), tuple(sorted(s)))
            h0 = first.setdefault(key, a['h'])
            same = a['same'] if k not in other or other[k]['h'] == a['h'] else 0
            f.write(json.dumps({'files': [(norm(v), k) for v, k in s], 'same': same, 'a': {x: a[x] for x in ('ok', 'version', 'card', 'ord')}, 'h': a['h'], 'h0': h0}) + '\n')
    events, bad, known = judge(chk, 'CombineTrace', trace)
    chk.cov['generations'] = 4 * len(reqs) + 6
    spread(chk, events)
    return chk.finish()


# ---- C18
def write(path, text):
    with open(path, 'w' if isinstance(text, str) else 'wb') as f:
        f.write(text)


BADRULES = ['n = ', 'n == 1', 'n = 1 and', 'x = 1', 'n = 1 or or n = 2', '1 = n', 'n = 1 foo']


BIG = {}        # the shipped data


def make_input(d, j, kind, rng, big):
    if kind == 'missing' and rng.random() < .15:
        return '-'
    p = os.path.join(d, rng.choice(['in%d.json', 'in%d', 'in %d.json', 'ïn%d.json', 'in%d.json ']) % j)
    if kind == 'c':
        write(p, BIG[big, 'c'] if big else content(37, rng, cardinal=CARD1))
    elif kind == 'o':
        write(p, BIG[big, 'o'] if big else content(37, rng, ordinal=ORD))
    elif kind == 'n':
        write(p, content(37, rng))
    elif kind == 'c2':
        write(p, content(36, rng, cardinal=CARD2))
    elif kind == 'dir':
        os.mkdir(p)
        if rng.random() < .3:
            write(os.path.join(p, rng.choice(['plurals.json', 'in%d.json' % j, 'index.json'])), content(37, rng, cardinal=CARD1))
    elif kind == 'missing' and rng.random() < .3:
        # something like it is there
        near = rng.choice([p + '.json', p.strip() + 'x', p.upper(), p[:-1], p + '~', p.replace('.json', '.JSON') + '.bak'])
        if os.path.dirname(near) == d and near != p and not os.path.exists(near):
            write(near, content(37, rng, cardinal=CARD1))
    elif kind == 'utf8':
        write(p, content(37, cardinal=CARD1).replace('integer', '\udcff\udcfe').encode('utf-8', 'surrogateescape'))
    elif kind == 'notdata':
        write(p, rng.choice(NOTDATA))
    elif kind == 'badrule':
        write(p, content(37, rng, **{rng.choice(['cardinal', 'ordinal']): {'en': {'one': 'n = 1', 'other': ''}, 'fr': {'one': rng.choice(BADRULES), 'other': ''}}}))
    return p


def snapshot(d):
    """every file below d but the output"""
    s = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                s[os.path.relpath(p, d)] = 'link ' + os.readlink(p)
            elif stat.S_ISFIFO(os.stat(p).st_mode):
                s[os.path.relpath(p, d)] = 'pipe'
            else:
                st = os.stat(p)
                s[os.path.relpath(p, d)] = (open(p, 'rb').read(), st.st_mode)
        for x in dirs:
            s[os.path.relpath(os.path.join(root, x), d)] = 'dir'
    return s


def small_files(size):
    # (the limit is met by an error, not a signal)
    def f():
        limits()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    return f


class Pipe:
    """puts a pipe in the place of a file; its contents come in parts"""
    def __init__(self, path, rng):
        self.path, text = path, open(path, 'rb').read()
        cuts = sorted(rng.randrange(len(text) + 1) for _ in range(rng.choice([1, 2, 4])))
        self.parts = [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]
        os.remove(path)
        os.mkfifo(path)
        self.thread = threading.Thread(target=self.feed, daemon=True)
        self.thread.start()

    def feed(self):
        try:
            with open(self.path, 'wb', buffering=0) as f:
                for x in self.parts:
                    f.write(x)
                    time.sleep(.01)
        except OSError:
            pass

    def close(self):
        # nobody may have read it
        while self.thread.is_alive():
            fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
            time.sleep(.005)
            os.close(fd)


def one_run(chk, d, sc, rng, plain):
    outp, fmt, tool, ins = sc[0], sc[1], sc[2], sc[3:]
    os.makedirs(os.path.join(d, 'in'))
    os.makedirs(os.path.join(d, 'out'))
    x = rng.random()
    big = 2 if x < .012 and tool == 'fine' else 1 if x < .09 else 0
    paths = [make_input(os.path.join(d, 'in'), j, k, rng, big) for j, k in enumerate(ins)]
    if rng.random() < .4:
        # the same path given again
        for j, k in enumerate(ins):
            if ins.index(k) < j and rng.random() < .7:
                paths[j] = paths[ins.index(k)]
    pipes = []
    if rng.random() < .08:
        # an input that is not a plain file
        for j, k in enumerate(ins):
            if k in ('c', 'o', 'n', 'c2', 'badrule') and paths.count(paths[j]) == 1 and not pipes:
                pipes.append(Pipe(paths[j], rng))
    oname = rng.choice(['rules.rs', 'rules.rs', 'my rules.rs', 'rules', 'rules.rs ', ' rules.rs', 'règlés.rs', 'rules.json'])
    o = os.path.join(d, 'out', oname)
    slash = False
    if outp == 'short':
        write(o, '// before\n')
    elif outp == 'long':
        write(o, '// before, and longer than anything generated\n' * 4000)
    elif outp == 'dir':
        os.mkdir(o)
    elif outp == 'noparent' and rng.random() < .3:
        # no such folder, and a folder is no place for the code
        o += rng.choice(['/', '/.', '//'])
        slash = True
    elif outp == 'noparent':
        o = os.path.join(d, 'out', 'nowhere', oname)
    elif outp == 'full':
        os.symlink('/dev/full', o)
    texts = plain.get((big if 'c2' not in ins else 0,) + tuple(k for k in ins if k != 'n'))
    want = texts and texts[fmt == 'pretty']
    if outp == 'same':
        write(o, want or '')
    elif outp == 'samelen':
        t = rng.choice(texts or [''])
        write(o, rng.choice([lambda: b'/' * len(t.encode()), lambda: t.encode()[:-1] + b'/', lambda: b'/' + t.encode()[1:]])())
    elif outp == 'stale':
        write(o, texts[fmt == 'plain'] if texts else '')
    elif outp == 'link':
        write(o + '.real', '// before\n')
        os.symlink(os.path.basename(o) + '.real', o)
    if rng.random() < .3:
        # as paths relative to the working directory
        o, paths = os.path.relpath(o, d) + ('/' if slash else ''), [p if p == '-' else os.path.relpath(p, d) for p in paths]
    elif rng.random() < .2:
        # other ways to write the same paths
        def other(p):
            return p if p == '-' else rng.choice([p, os.path.dirname(p) + rng.choice(['//', '/./', '/../%s/' % os.path.basename(os.path.dirname(p))]) + os.path.basename(p)])
        o, paths = o if slash or outp == 'noparent' else other(o), [p if paths.count(p) > 1 else other(p) for p in paths]
    before, ibefore = snapshot(os.path.join(d, 'out')), snapshot(os.path.join(d, 'in'))
    e = dict(os.environ, **CARGO_ENV)
    if tool != 'fine':
        b = os.path.join(d, 'bin')
        os.mkdir(b)
        if tool == 'failing':
            write(os.path.join(b, 'rustfmt'), '#!/bin/sh\necho error >&2\nexit 1\n')
            os.chmod(os.path.join(b, 'rustfmt'), 0o755)
        e['PATH'] = b
    given = ['-o', o] if outp != 'none' else rng.choice([[], [], ['-o'], ['--output']])
    if outp == 'none' and not ins:
        cmd = rng.choice([[], given])
    elif outp == 'none':
        cmd = rng.choice([['-i'] + paths + given, sum([['--input', p] for p in paths], []) + given])
    elif not ins:
        cmd = rng.choice([given, given + ['-i'], given + ['--input'], ['--output=' + o]])
    else:
        cmd = rng.choice([['-i'] + paths + given, given + ['-i'] + paths, ['--output', o] + sum([['--input', p] for p in paths], [])])
    cmd = [cli()] + cmd
    if fmt == 'plain':
        u = rng.choice(['-u', '--ugly'])
        cmd.insert(1, u) if not ins or outp == 'none' or rng.random() < .5 else cmd.append(u)
    full = min(len(t.encode()) for t in texts) if texts else 300
    size = rng.choice([0, 1, 256, full // 2, full * 3 // 4, full - 100, full - 1])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=content(37, cardinal=CARD1).encode(), cwd=d, env=e, timeout=60,
                           preexec_fn=small_files(size) if outp == 'limit' else limits)
        rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        rc, err = 999, 'timeout'
    for x in pipes:
        x.close()
    after = snapshot(os.path.join(d, 'out'))
    kept = snapshot(os.path.join(d, 'in')) == ibefore
    # only the output path counts, not what else lies beside it
    after, before = [{k: v for k, v in x.items() if os.path.basename(k) == oname} for x in (after, before)]
    if slash:
        # what is at the path without the slash does not count
        after = before if not os.path.isfile(os.path.join(d, o)) else after
    if outp == 'link':
        # what the path leads to
        after = {oname: (open(os.path.join(d, o), 'rb').read(), 0)} if os.path.exists(os.path.join(d, o)) else {}
    if after == before and outp != 'same':
        state = 'before'
    else:
        state = 'other'
        got = after.get(oname)
        if texts and isinstance(got, tuple):
            if got[0] == texts[0].encode() and fmt == 'plain':
                state = 'plain'
            elif got[0] == texts[1].encode():
                state = 'pretty'
            elif got[0] == texts[0].encode():
                state = 'plain'
    return {'outp': outp, 'fmt': fmt, 'tool': tool, 'ins': ins, 'rc': rc, 'after': state, 'kept': int(kept), 'stderr': err[-200:]}


def c18(pid):
    from concurrent.futures import ThreadPoolExecutor
    chk = Check(pid, 'model_checking')
    out = model(chk, 'CliModel', cfg='CliModelDeep' if THOROUGH else 'CliModel')
    runs = [s.split() for s in sorted(set(re.findall(r'^"RUN (.*)"$', out, re.M)))]
    if len(runs) < 900:
        raise ToolError('scenarios missing')
    rng = random.Random(SEED)
    if THOROUGH:
        rng.shuffle(runs)
        runs = [r for r in runs if len(r) <= 5] + [r for r in runs if len(r) > 5][:3000]
    chk.cov['spec_scenarios'] = len(runs)
    # longer lists of inputs, with at most one fault, anywhere
    for _ in range(3000 if THOROUGH else 90):
        ins = rng.choice([['c'], ['o'], ['c', 'o'], []]) + ['n'] * rng.choice([2, 3, 5, 8, 20, 60])
        rng.shuffle(ins)
        if rng.random() < .6:
            ins[rng.choice([0, -1, rng.randrange(len(ins))])] = rng.choice(['missing', 'dir', 'utf8', 'notdata', 'badrule', 'c2', 'c', 'o'])
        runs.append([rng.choice(['absent', 'short', 'long']), rng.choice(['plain', 'pretty']), 'fine'] + ins)
    build_harness()
    # the complete texts: what the generator function returns, and that text formatted
    good = {('c',): [content(37, cardinal=CARD1)], ('o',): [content(37, ordinal=ORD)], ('c2',): [content(36, cardinal=CARD2)],
            ('c', 'o'): [content(37, cardinal=CARD1), content(37, ordinal=ORD)]}
    good[('o', 'c')] = good[('c', 'o')][::-1]
    for t in 'co':
        ty = {'c': 'cardinal', 'o': 'ordinal'}[t]
        BIG[1, t] = open(os.path.join(SPEC, 'data', 'cldr37_%ss.json' % ty)).read()
        BIG[2, t] = content(37, **{ty: {k: {'one': short_rule(rng) + ' and ' + short_rule(rng), 'few': short_rule(rng), 'other': ''} for k in rng.sample(list(codes()), 1500)}})
    good = {(b,) + k: [BIG[b, t] for t in k] if b else v for k, v in good.items() for b in (0, 1, 2) if not b or 'c2' not in k}
    keys = list(good)
    ans = generate(chk, [{'files': good[k], 'full': True} for k in keys])
    if ans is None:
        return chk.finish()
    plain = {}
    for k, a in zip(keys, ans):
        if a['ok'] != 1:
            chk.violation('the generator refuses well-formed data', {'inputs': k})
            continue
        t = os.path.join(chk.work, 'rules.rs')
        write(t, a['out'])
        p = run(['rustfmt', t], 60, env=dict(os.environ, **CARGO_ENV))
        if p.returncode != 0:
            raise ToolError('rustfmt: ' + p.stderr[-500:])
        plain[k] = (a['out'], open(t).read())
    base = os.path.join(chk.work, 'runs')
    os.mkdir(base)

    def go(k):
        d = os.path.join(base, str(k))
        os.mkdir(d)
        e = one_run(chk, d, runs[k], random.Random(SEED * 100003 + k), plain)
        shutil.rmtree(d)
        return e
    with ThreadPoolExecutor(8) as ex:
        evs = list(ex.map(go, range(len(runs))))
    trace = os.path.join(chk.work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for e in evs:
            f.write(json.dumps(e) + '\n')
    events, bad, known = judge(chk, 'CliTrace', trace)
    chk.cov['command_runs'] = len(runs)
    spread(chk, events)
    chk.assumptions += ['rustfmt is installed (formatted = rustfmt applied to the plain text)']
    return chk.finish()


# ---- C19
def mutate(rng, t):
    """one small change of a rule text"""
    k = rng.randrange(len(t) + 1)
    op = rng.randrange(6)
    if op == 0 and t:
        return t[:max(0, k - 1)] + t[k:]
    if op == 1:
        return t[:k] + rng.choice(list('nivwfte0159%=!,.~ @x&|()') + ['  ', ' and ', ' or ', 'mod', '..', 'not ', '\t', '\n', '\u00a0', '-1', '1.5', 'é']) + t[k:]
    if op == 2 and t:
        return t[:max(0, k - 1)] + rng.choice('nivwfte0159%=!,.~ x') + t[k:]
    w = t.split(' ')
    j = rng.randrange(len(w))
    if op == 3:
        return ' '.join(w[:j] + w[j + 1:])
    if op == 4:
        return ' '.join(w[:j] + [w[j]] + w[j:])
    return ' '.join(w[:j] + [rng.choice(['and', 'or', 'n', '=', '!=', 'in', 'not', 'within', 'is', '5', '%', 'mod', '1..2', '1,2', 'x', 'e', 'c', '==', '<', 'true'])] + w[j + 1:])


KEYS = ['', 'e', 'en--US', 'en-', '-en', '1', '12', 'e1', 'abcd', 'abcdefghi', 'en-U', 'en-1', 'en-12', 'en-USAA1', 'en-Latn-', 'en US', 'en.US', 'en-US-GB',
        'en-Latn-Cyrl', 'en-u-ca-buddhist', 'en-x-foo', 'Root', 'ROOT', 'root-', 'ro ot', ' en', 'en ', 'é', 'en-ÿÿ', 'en\u00a0', 'en-US-u', 'en-US-Latn', 'zz-99', 'en-0', '中文',
        'en', 'pt-PT', 'sr-Latn', 'sr-Latn-RS', 'es-419', 'fil', 'klingon', 'zh-Hans-CN', 'aa', 'zz', 'eng', 'abcdefgh', 'en-001', 'root']


def c19(pid):
    from concurrent.futures import ThreadPoolExecutor
    chk = Check(pid, 'model_checking')
    rng = random.Random(SEED)
    sents = set()
    for part in ('Gen', 'Rel', 'Bool'):
        out = model(chk, 'RuleModel', cfg='RuleModel' + part)
        got = sorted(set(re.findall(r'<<"SENTENCE", "(.*)">>', out)))
        sents |= set(got if THOROUGH else rng.sample(got, min(len(got), 1200)))
    sents = sorted(sents - {''})
    chk.cov['spec_sentences'] = len(sents)
    usual = [cldr_style(s.split()) for s in sents]
    d = json.load(open(os.path.join(SPEC, 'data', 'cldr37_cardinals.json')))['supplemental']['plurals-type-cardinal']
    real = sorted(set(t for l in d.values() for t in l.values()))
    tests = []      # (category, text, key)

    def add(text, cat='one', key='en'):
        tests.append((cat, text, key))
    samples = [' @integer 1', ' @integer 1, 2~5, … @decimal 1.5', ' @decimal 0.0~1.5, 10.0, …', ' ']
    for t in usual:
        add(t)
        add(t + rng.choice(samples), rng.choice(['zero', 'two', 'few', 'many']))
    for t in real:
        for c in ('one', 'other') if t.split('@')[0].strip() else ('other',):
            add(t, c)
    short = sorted(usual, key=len)[:400] + [t.split('@')[0].strip() for t in real]
    for _ in range(40000 if THOROUGH else 6000):
        t = rng.choice(short)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = mutate(rng, t)
        add(t + rng.choice(['', '', '', ' @integer 1, 2', '@integer 1']), rng.choice(['zero', 'one', 'two', 'few', 'many', 'one', 'other']))
    for t in BADRULES + ['', ' ', 'foo', 'n', 'n =', '= 1', 'n = 1,', 'n = ,1', 'n = 1..', 'n = ..2', 'n = 1...2', 'n = 1 and', 'and n = 1', 'or', 'n = 1 or', 'n = 1 and and i = 1',
                         'n = 1 i = 2', 'n = 1;', 'n = -1', 'n = 1.5', 'n != ', 'n % = 1', 'n % 10', 'n % 10 % 5 = 1', 'n mod = 1', 'e = 0', 'c = 0', 'N = 1', 'n = one', 'n = 1 & i = 2', 'n = 1 || i = 2',
                         '(n = 1)', 'n = 1 and (i = 2 or i = 3)', 'not n = 1', 'n is', 'n is not', 'n not', 'n not 1', 'n not in', 'n within', 'n within 1 2', 'n = 1 or n = 2 or', 'n = 1 AND i = 2', 'n = 1\u00a0and i = 2',
                         'n = 99999999999999999999', 'n = 18446744073709551616', 'n = 1 trailing', 'n = 1 or i', 'n = 1 and v', 'n = 1 or x = 2', 'n = 1, x', 'n = 0..1..2', 'n = 1 2', 'n < 5', 'n > 1']:
        for c in ('one', 'many', 'other'):
            add(t, c)
            add(t + ' @integer 1, 2', c)
    # operands that rules of this version do not have, at any place of otherwise good conditions
    for t in ['e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5', 'c = 0 and i != 0 and i % 1000000 = 0 and v = 0 or c != 0..5', 'i = 1 and v = 0 and e = 0', 'n = 1 or e = 0',
              'e = 0 and i != 0', 'e != 0 and i = 1', 'c = 0 or i = 1', 'i = 0,1 and c = 0', 'v = 0 and i % 10 = 1 or e = 0..3', 'p = 0', 'j = 1 and v = 0', 'i = 1 and j = 0']:
        for c in ('one', 'many', 'other'):
            add(t, c)
            add(t + ' @integer 1, 2', c)
    for _ in range(6000 if THOROUGH else 900):
        rels = [rng.choice(['%s = 0', '%s = 1', '%s != 0', '%s %% 10 = 1', '%s = 0..5', '%s != 0,1', '%s in 0..1', '%s within 0..2', '%s is 1', '%s not in 3']) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        odd = rng.randrange(len(rels))
        rels = [r % (rng.choice('eeecccabdjpxyzNIVWFT') if k == odd else rng.choice('nivwft')) for k, r in enumerate(rels)]
        t = rels[0]
        for r in rels[1:]:
            t += rng.choice([' and ', ' or ']) + r
        add(t, rng.choice(['zero', 'one', 'two', 'few', 'many', 'other']))
    # long conditions, with a flaw somewhere or none
    for _ in range(1200 if THOROUGH else 200):
        t = cldr_style(rng.choice(sents).split())
        while len(t) < rng.choice([100, 300, 1000, 2500]):
            t += rng.choice([' and ', ' or ']) + rng.choice(short)
        for _ in range(rng.choice([0, 1, 1, 1])):
            t = mutate(rng, t)
        add(t, rng.choice(['zero', 'one', 'two', 'few', 'many', 'other']))
    for k in KEYS:
        add('n = 1', 'one', k)
        add('', 'other', k)
    tests = sorted(set(tests))
    rng.shuffle(tests)
    build_harness()
    reqs = []
    for j, (cat, text, key) in enumerate(tests):
        good = {'other': ' @integer 0', 'one': 'n = 1'}
        # the rule under test among good ones, in either type and any place
        rules = dict(good)
        rules[cat] = text
        locs = {'aa': good, 'mm': good, 'zz': good} if j % 3 else {}
        if j % 150 == 4:
            # among many
            locs = {k: good for k in rng.sample(list(codes()), rng.choice([40, 200, 700, 1500]))}
        locs.pop(key, None)
        locs[key] = rules
        if j % 150 == 4:
            locs = dict(rng.sample(list(locs.items()), len(locs)))
        elif j % 2:
            locs = dict(reversed(list(locs.items())))
        types = {'cardinal': locs} if j % 5 < 3 else {'ordinal': locs} if j % 5 == 3 else {'cardinal': {'aa': good}, 'ordinal': locs}
        reqs.append({'files': [content(37, rng if j % 4 == 0 else None, **types)]})
    ans = generate(chk, reqs)
    if ans is None:
        return chk.finish()
    # the specification judges all refusals and acceptances
    trace = os.path.join(chk.work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for (cat, text, key), a in zip(tests, ans):
            f.write(json.dumps({'cat': cat, 'text': norm(text), 'key': norm(key), 'ok': a['ok']}) + '\n')
    events, bad, known = judge(chk, 'RefuseTrace', trace)
    chk.cov.update(generations=len(tests), refused=sum(1 for a in ans if not a['ok']))
    spread(chk, events)
    return chk.finish()


def norm(t):
    """other white space and other characters by a representative (the specification is ASCII)"""
    return ''.join(c if c in ' \t' or 32 < ord(c) < 127 else '\n' if c.isspace() else '$' for c in t)


# ---- C20
def short_rule(rng):
    o = rng.choice('nnniiivwft')
    lo = rng.choice([0, 1, 2, 3, rng.randrange(12), rng.randrange(100)])
    hi = lo + rng.choice([1, 1, 2, 3, 5, 9])
    v = rng.choice(['%d' % lo, '%d..%d' % (lo, hi), '%d,%d' % (hi, lo), '%d..%d,%d' % (lo, lo + 1, hi + 1), '%d,%d..%d' % (lo, lo + 2, hi + 2)])
    m = '' if rng.random() < .6 else ' %% %d' % rng.choice([10, 10, 100, 100, 3, 1000])
    op = rng.choice(['=', '=', '=', '!=', 'in', 'within', 'not in'] + (['is', 'is not'] if v.isdigit() else []))
    return '%s%s %s %s' % (o, m, op, v)


LANGS = ['aa', 'ab', 'az', 'ba', 'de', 'en', 'fil', 'fr', 'guw', 'he', 'iw', 'kde', 'naq', 'nn', 'no', 'pt', 'sr', 'uz', 'zh', 'zu', 'abcde', 'klingon']


ALL = list(codes())


def some_data(rng, real, many=0):
    """{type: {key: {category: text}}}, every identifier once"""
    d = {}
    for ty in rng.choice([['cardinal'], ['ordinal'], ['cardinal', 'ordinal'], ['cardinal', 'ordinal']]):
        ids = set()
        for _ in range(many or rng.choice([1, 2, 2, 3, 4, 5, 8])):
            k = rng.choice(ALL if many else LANGS)
            if rng.random() < .25:
                k += '-' + rng.choice(['Latn', 'Cyrl', 'Arab', 'Hant'])
            if rng.random() < .35:
                k += '-' + rng.choice(['PT', 'BR', 'AO', '419', '001', 'US', 'US', 'ZA'])
            ids.add(k)
        ids = sorted(ids)
        rng.shuffle(ids)
        d[ty] = {}
        for k in ids:
            cats = rng.sample(['zero', 'one', 'two', 'few', 'many'], rng.choice([0, 1, 1, 2, 2, 3, 5]))
            r = {}
            for c in cats:
                x = rng.random()
                r[c] = rng.choice(real) if x < .4 else short_rule(rng) if x < .8 else short_rule(rng) + rng.choice([' and ', ' or ']) + short_rule(rng)
                r[c] += rng.choice(SAMPLES)
            if rng.random() < .9 or not r:
                r['other'] = rng.choice(SAMPLES)
            d[ty][k] = r
    return d


def rewrite(rng, data, steps):
    """the texts of files that say the same, by the steps of the specification"""
    d = {ty: {k: dict(r) for k, r in t.items()} for ty, t in data.items()}
    ver = {'_unicodeVersion': '13.0.0', '_cldrVersion': '37'}
    extra = {'top': {}, 'supplemental': {}, 'type': {}}
    layout, nfiles, mix = 'compact', 1, False
    for s in steps:
        if s == 'reorder':
            mix = True
        elif s == 'resample':
            for t in d.values():
                for r in t.values():
                    for c in r:
                        if rng.random() < .7:
                            n = rng.choice([0, 1, 2, 40] if len(t) > 20 else [0, 1, 2, 40, 400])
                            r[c] = r[c].split('@')[0].rstrip() + rng.choice(SAMPLES + [' @integer ' + ', '.join(map(str, range(n, 2 * n + 1))), '  ', ' @decimal 0.5'])
        elif s == 'respell':
            for ty in d:
                d[ty] = {respell(rng, k) if rng.random() < .7 else k: r for k, r in d[ty].items()}
        elif s == 'unused':
            p = rng.randrange(5)
            if p == 0:
                extra['top'][rng.choice(['main', '$schema', 'plurals-type-cardinal', 'version', 'Supplemental'])] = rng.choice([{}, [], None, 1, -2.5e300, 'x', True, [{'en': {}}], {'en': {'pluralRule-count-one': 'n = 7'}}])
            elif p == 1:
                extra['supplemental'][rng.choice(['generation', 'plurals-type-range', 'plurals', 'cardinal', 'plurals-type', 'Plurals-Type-Cardinal', 'plurals-type-ordinals', '_cldrVersion'])] = \
                    rng.choice([{}, [1, [2]], None, '38', {'en': {'pluralRule-count-many': 'n = 7'}}])
            elif p == 2:
                ver[rng.choice(['_date', 'cldrVersion', '_cldrversion', 'number', '_comment'])] = rng.choice(['38', 38, None, {'x': 1}])
            elif p == 3:
                ver['_number'] = rng.choice(['$Revision: 14841 $', '', '38', None])
            else:
                ver['_unicodeVersion'] = rng.choice(['12.1.0', '14', '', '37'])
        elif s == 'split':
            nfiles = 2
        else:
            layout = s

    def text(types):
        v = dict(ver)
        sup = {'version': v}
        for ty in types:
            sup['plurals-type-' + ty] = {k: {'pluralRule-count-' + c: t for c, t in r.items()} for k, r in d[ty].items()}
        sup.update(extra['supplemental'])
        top = {'supplemental': sup}
        top.update(extra['top'])

        def mixed(x):
            if isinstance(x, dict):
                items = [(k, mixed(v)) for k, v in x.items()]
                rng.shuffle(items)
                return dict(items)
            return x
        if mix:
            top = mixed(top)
        if layout == 'indent':
            return json.dumps(top, ensure_ascii=False, indent=rng.choice([1, 2, 8, '\t', '\r\n ']), separators=rng.choice([(',', ':'), (' , ', ' : '), ('\n,\t', ':\r\n')]))
        t = json.dumps(top, ensure_ascii=False)
        if layout == 'blank':
            return rng.choice(['', '\n', ' \t\r\n', ' ' * 5000]) + t + rng.choice(['\n', '\r\n', ' ', '\n' * 3000, '\t\n '])
        if layout == 'escape':
            # any character inside a string may be written \\uXXXX; the texts here have no quotes or escapes of their own
            share = rng.choice([.05, .3, 1])
            out, inside = [], False
            for c in t:
                if c == '"':
                    inside = not inside
                    out.append(c)
                elif inside and rng.random() < share:
                    h = '\\u%04x' % ord(c)
                    out.append(rng.choice([h, h[:2] + h[2:].upper()]) if c != '/' else '\\/')
                else:
                    out.append(c)
            return ''.join(out)
        return t
    types = list(d)
    if mix:
        rng.shuffle(types)
    if nfiles == 2:
        parts = [[types[0]], types[1:]]
        rng.shuffle(parts)
        return [text(p) for p in parts]
    return [text(types)]


def facts(texts):
    """what the files say, with identifiers in canonical spelling"""
    out, v = [], set()
    for t in texts:
        s = json.loads(t)['supplemental']
        v.add(s['version']['_cldrVersion'])
        for ty in ('cardinal', 'ordinal'):
            for k, r in s.get('plurals-type-' + ty, {}).items():
                p = k.replace('_', '-').split('-')
                p = [p[0].lower()] + [x.title() if len(x) == 4 else x.upper() for x in p[1:]]
                out += [[ty, '-'.join(p), c.split('-')[2], norm(x)] for c, x in r.items()]
    return {'v': ' '.join(sorted(v)), 'm': out}


def c20(pid):
    chk = Check(pid, 'model_checking')
    model(chk, 'LayoutModel', cfg='LayoutModelDeep' if THOROUGH else 'LayoutModel')
    out = model(chk, 'LayoutModel', cfg='LayoutModelSteps')
    seqs = [s.split() for s in sorted(set(re.findall(r'^"STEPS (.*)"$', out, re.M)))]
    if len(seqs) < 4000:
        raise ToolError('step sequences missing: %d' % len(seqs))
    chk.cov['spec_sequences'] = len(seqs)
    rng = random.Random(SEED)
    real, ship = set(), []
    for ty in ('cardinal', 'ordinal'):
        ship.append(open(os.path.join(SPEC, 'data', 'cldr37_%ss.json' % ty)).read())
        d = json.loads(ship[-1])['supplemental']['plurals-type-' + ty]
        real |= {t.split('@')[0].strip() for l in d.values() for t in l.values()}
    real = sorted(real - {''})
    build_harness()
    pairs = []
    for s in seqs * (16 if THOROUGH else 1):
        d = some_data(rng, real)
        pairs.append(([content(37, **d)], rewrite(rng, d, s)))
    # many locales
    for s in rng.sample(seqs, 200 if THOROUGH else 10):
        d = some_data(rng, real, rng.choice([100, 300, 800, 1500]))
        pairs.append(([content(37, **d)], rewrite(rng, d, s)))
    # the shipped data
    d = {ty: {k: {c[17:]: t for c, t in r.items()} for k, r in json.loads(x)['supplemental']['plurals-type-' + ty].items()} for ty, x in zip(('cardinal', 'ordinal'), ship)}
    for s in rng.sample(seqs, 600 if THOROUGH else 12):
        pairs.append((ship, rewrite(rng, d, s)))
    ans = generate(chk, [{'files': x} for p in pairs for x in p])
    if ans is None:
        return chk.finish()
    trace = os.path.join(chk.work, 'trace.ndjson')
    n = 0
    with open(trace, 'w') as f:
        for k, (a, b) in enumerate(pairs):
            x, y = ans[2 * k], ans[2 * k + 1]
            n += x['ok'] and y['ok']
            f.write(json.dumps({'a': facts(a), 'b': facts(b), 'oka': x['ok'], 'okb': y['ok'], 'ha': x['h'], 'hb': y['h'], 'texts': [norm(t[:3000]) for t in b]}) + '\n')
    events, bad, known = judge(chk, 'LayoutTrace', trace)
    chk.cov.update(generations=2 * len(pairs), generated_pairs=n)
    if n < len(pairs) * .9 and not chk.violations:
        chk.violation('the generator refuses well-formed data', {'pairs': len(pairs), 'generated': n})
    spread(chk, events)
    return chk.finish()


# ---- C21
def c21(pid):
    chk = Check(pid, 'model_checking')
    model(chk, 'CallModel')
    rng = random.Random(SEED)
    texts, real = set(), set()
    for part in ('Rel', 'Bool', 'Samples'):
        out = model(chk, 'RuleModel', cfg='RuleModel' + part)
        got = sorted(set(re.findall(r'<<"SENTENCE", "(.*)">>', out)))
        texts |= {cldr_style(t.split()) for t in rng.sample(got, min(len(got), 2000 if THOROUGH else 45))}
    for ty in ('cardinal', 'ordinal'):
        d = json.load(open(os.path.join(SPEC, 'data', 'cldr37_%ss.json' % ty)))['supplemental']['plurals-type-' + ty]
        real |= {t for l in d.values() for t in l.values()}
    real = sorted(real)
    texts |= set(rng.sample(real, 20)) | {t.split('@')[0].strip() for t in rng.sample(real, 20)}
    texts = sorted(texts)
    # texts that differ little from each other: what is remembered of one must not answer for the other
    for t in rng.sample(texts, 60):
        u = mutate(rng, t)
        texts += [u, u + ' ', t + ' @integer 1', t.replace('n', 'i'), t.replace('=', '!='), t.split('@')[0], re.sub(r'\d', lambda m: str(9 - int(m.group(0))), t, count=1)]
    # long ones, twins that differ at the head or the tail, and long ones that are refused
    for n in [20, 40, 80, 150, 300] * (20 if THOROUGH else 4):
        t = short_rule(rng)
        for _ in range(n):
            t += rng.choice([' and ', ' and ', ' or ']) + short_rule(rng)
        if rng.random() < .4:
            t += ' @integer ' + ', '.join(str(rng.randrange(1000)) for _ in range(n)) + rng.choice(['', ', …'])
        texts += [t, 'v = 7 or ' + t, t.replace('1', '2', 1), rng.choice([t + ' and', t + ' x', t.split('@')[0] + ' or t = 3', t[:-1], 'x' + t])]
    texts = list(dict.fromkeys(t for t in texts if '!!' not in t))
    nums = ['0', '1', '1.0', '1.00', '-1', '01', '1.5', '1.50', 'foo', '', '-', '1.', '.5', '18446744073709551615', '18446744073709551616', '99999999999999999999.5', 'inf', 'nan', '1e3', '0.1', '2', '1.10', '1.1']
    calls = []
    for t in texts:
        calls += [[f, [t]] for f in ('rule', 'ruleS', 'cond', 'condS')]
    for t in nums:
        calls += [[f, [t]] for f in ('ops', 'opsS')]
    # numbers that differ in one place only, at the head, in the middle or at the tail; numbers of every type
    for k in range(400 if THOROUGH else 50):
        n = rng.choice([3, 6, 9, 13, 17, 20, 24, 40, 80])
        t = [rng.choice('0123456789') for _ in range(n)]
        if rng.random() < 0.6:
            t[rng.randrange(1, n - 1)] = '.'
        for _ in range(4):
            u = list(t)
            j = rng.choice([0, 0, 1, n // 2, n - 1, rng.randrange(n)])
            if u[j] != '.':
                u[j] = rng.choice([c for c in '0123456789' if c != u[j]])
            calls += [['ops', [''.join(x)]] for x in (t, u)]
        calls += [['ops', [x]] for x in ('-' + ''.join(t), '0' + ''.join(t), ''.join(t) + '0', ''.join(t)[:-1] + 'x')]
    for ty, vs in (('i8', ['0', '1', '-1', '127', '-127']), ('u8', ['0', '1', '255', '128']), ('i32', ['1', '-1', '257', '65537', '2147483647']), ('u64', ['1', '4294967297', '18446744073709551615', '9223372036854775809']),
                   ('i64', ['1', '-1', '4294967297', '9223372036854775807']), ('usize', ['1', '65537', '4294967296']), ('f32', ['1', '-1', '0.5', '0.1', '16777216', 'nan', '1e-30']), ('f64', ['1', '0.5', '0.1', '1.1', '16777217', '9007199254740993', 'inf', '1e-300', '-2.25'])):
        calls += [[ty, [v]] for v in vs]
    rules = sorted({t.split('@')[0].strip() for t in real} - {''})
    for k in range(60):
        d = some_data(rng, rules)
        f = content(rng.choice([36, 37]), rng, **d)
        calls.append(['gen', rng.choice([[f], [f], [f, f], [f, rng.choice(NOTDATA)], [rng.choice(NOTDATA)],
                                         [content(37, cardinal={'en': {'one': rng.choice(BADRULES), 'other': ''}})], [content(37, cardinal={'en--': {'other': ''}})]])])
        if k % 3 == 0:
            # nearly the same once more
            g = content(37, rng, **{ty: dict(list(t.items())[:-1], zu={'other': '', 'one': short_rule(rng)}) for ty, t in d.items()})
            calls.append(['gen', [g]])
    # large tables
    for n in [40, 120, 200, 400] * (4 if THOROUGH else 1):
        t = {k: {'one': short_rule(rng), 'few': short_rule(rng), 'other': ''} for k in rng.sample(list(codes()), n)}
        bad = dict(t, **{rng.choice(sorted(t)): {'one': rng.choice(BADRULES), 'other': ''}})
        calls += [['gen', [content(37, cardinal=t)]], ['gen', [content(37, ordinal=bad)]], ['gen', [content(37, cardinal=dict(sorted(t.items())[1:]))]]]
    # rule texts that differ in their blanks only, or in one character, in one and the same table
    for k in range(200 if THOROUGH else 30):
        loc, cat, t = rng.choice(['en', 'fr', 'zu']), rng.choice(['one', 'two', 'many']), rng.choice(rules) if rng.random() < 0.7 else short_rule(rng)
        us = [t]
        for _ in range(4):
            b = rng.random()
            if b < 0.5:
                j = rng.choice([m.end() for m in re.finditer(r'\d(?=\d)|\w(?=\w)|\S(?=\S)', t)] or [len(t)])
                us.append(t[:j] + ' ' + t[j:])
            elif b < 0.7:
                us.append(t.replace(' ', '', 1) if b < 0.6 else t.replace(' ', ''))
            else:
                us.append(mutate(rng, t))
        calls += [['gen', [content(37, cardinal={loc: {cat: u, 'other': ''}})]] for u in us if '!!' not in u]
    build_harness()
    pf, bf, tf = [os.path.join(chk.work, x) for x in ('plan.json', 'behaviours.ndjson', 'table.json')]
    json.dump(calls, open(pf, 'w'))
    n = 15000 if THOROUGH else 300
    out = tlc(chk, 'CallModel', env={'NCALLS': str(len(calls))}, cfg='CallGen', workers=1, extra=['-simulate', 'num=%d' % n, '-depth', '61', '-seed', str(SEED)])
    bs = sorted({json.loads('"' + b + '"') for b in re.findall(r'<<"BEHAVIOUR", "(.*)">>', out)})
    if len(bs) < n // 2:
        raise ToolError('behaviour generation failed (%d):\n%s' % (len(bs), out[-2000:]))
    open(bf, 'w').write(''.join(b + '\n' for b in bs))
    chk.cov['behaviours_generated'] = len(bs)
    trace = os.path.join(chk.work, 'trace.ndjson')
    st = harness(chk, ['pure', '--plan', pf, '--behaviours', bf, '--table', tf, '--out', trace])
    if st:
        chk.cov.update(calls=st['evaluations'], fresh_process_calls=st['fresh'])
        events, bad, known = judge(chk, 'CallTrace', trace, env={'TABLE': tf})
        spread(chk, events[-200:])
    chk.assumptions += ['thread schedules are those the operating system produced']
    return chk.finish()
