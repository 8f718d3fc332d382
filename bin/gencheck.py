"""C14, C15, C17: libraries regenerated by the generator, compiled and judged."""
import random, string
from vlib import *
from genlib import *


def rulesets(chk, rng):
    """[{category: text}]: from the specification's rule set machine and relation shapes, and random combinations"""
    sets = []
    for part in ('CatsDeep', 'ShapesDeep') if THOROUGH else ('Cats', 'Shapes'):
        out = model(chk, 'GenModel', cfg='GenModel' + part)
        got = sorted(set(re.findall(r'^"RULESET (.*)"$', out, re.M)))
        if len(got) < 1000:
            raise ToolError('rule sets missing: %d' % len(got))
        for s in got:
            sets.append(dict(x.split(':') for x in s.split(';') if x))
    chk.cov['spec_rulesets'] = len(sets)
    out = model(chk, 'RuleModel', cfg='RuleModelGen')
    shapes = sorted(set(re.findall(r'<<"SENTENCE", "(.*)">>', out)) - {''})
    # 'is' takes one value
    shapes = [s for s in shapes if not (re.search(r' is ', s) and (',' in s or '..' in s))]
    if len(shapes) < 500:
        raise ToolError('relation shapes missing: %d' % len(shapes))
    chk.cov['relation_shapes'] = len(shapes)
    for s in shapes:
        for _ in range(6 if THOROUGH else 1):
            sets.append({rng.choice(['zero', 'one', 'two', 'few', 'many']): instantiate(rng, s)})

    def cond():
        return ' or '.join(' and '.join(instantiate(rng, rng.choice(shapes)) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
                           for _ in range(rng.choice([1, 1, 2, 2, 3, 5])))
    for _ in range(3000 if THOROUGH else 500):
        cats = rng.sample(['zero', 'one', 'two', 'few', 'many'], rng.randrange(1, 6))
        sets.append({c: cond() for c in cats})

    # the short rules that languages have, in other combinations
    real = set()
    for ty in ('cardinal', 'ordinal'):
        d = json.load(open(os.path.join(SPEC, 'data', 'cldr37_%ss.json' % ty)))['supplemental']['plurals-type-' + ty]
        real |= {t.split('@')[0].strip() for l in d.values() for t in l.values()}
    real = sorted(real - {''})

    def short():
        k = rng.random()
        if k < .25:
            return rng.choice(real)
        o = rng.choice('nnniiivwft')
        lo = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(12), rng.randrange(100)])
        hi = lo + rng.choice([1, 1, 2, 3, 5, 9])
        v = rng.choice(['%d' % lo, '%d..%d' % (lo, hi), '%d..%d' % (lo, hi), '%d,%d' % (lo, hi), '%d..%d,%d' % (lo, lo + 1, hi + 1), '%d,%d..%d' % (lo, lo + 2, hi + 2)])
        m = '' if o == 'n' or rng.random() < .6 else ' %% %d' % rng.choice([10, 10, 100, 100, 1, 2, 3, 4, 8, 12, 16, 32, 50, 1000, 10000, 65536, 1000000])
        op = rng.choice(['=', '=', '=', '=', '!=', 'in', 'within'] + (['is', 'is not'] if v.isdigit() else []) + (['not in'] if o != 'n' else []))
        if op in ('!=', 'is not') and o == 'n' and '..' in v:
            op = '='
        return '%s%s %s %s' % (o, m, op, v)
    for _ in range(6000 if THOROUGH else 1500):
        cats = rng.sample(['zero', 'one', 'two', 'few', 'many'], rng.choice([1, 2, 3, 4, 5, 5]))
        sets.append({c: short() if rng.random() < .75 else short() + rng.choice([' and ', ' or ']) + short() for c in cats})

    # large in one respect: values and moduli up to the largest of 64 bits
    big = [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 10 ** 15, 10 ** 18, 2 ** 63 - 2, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 5, 10 ** 19, 2 ** 64 - 2]
    for _ in range(400 if THOROUGH else 80):
        b = rng.choice(big)
        o = rng.choice('iiiiift')
        k = rng.randrange(5)
        if k == 0:
            c = '%s %% %d = %s' % (o, b, rng.choice(['0', '1', '0..9', str(b - 1)]))
        elif k == 1:
            c = '%s %s %d..%d' % (o, rng.choice(['=', '!=', 'in', 'within', 'not in']), b, b + 1)
        elif k == 2:
            c = '%s %s %d..%d' % (o, rng.choice(['=', '!=', 'within']), rng.choice([0, 1, 2 ** 31, b - 3]), b)
        else:
            c = '%s %s %d' % (o, rng.choice(['=', '!=', 'is', 'is not', 'in', 'within', 'not in']), b)
        sets.append({rng.choice(['zero', 'one', 'two', 'few', 'many']): c})

    # long in one respect: values, relations, alternatives
    def values(n):
        vs = []
        for _ in range(n):
            lo = rng.choice([rng.randrange(30), rng.randrange(1000)])
            vs.append(str(lo) if rng.random() < .7 else '%d..%d' % (lo, lo + rng.randrange(4)))
        return ','.join(vs)

    def expr():
        o = rng.choice('iiivwft')
        return o + (' %% %d' % rng.choice([10, 100, 1000]) if rng.random() < .5 else '')
    for _ in range(300 if THOROUGH else 60):
        n = rng.choice([9, 13, 17, 18, 24, 33, 40, 66, 130, 260])
        k = rng.randrange(5)
        if k == 0:
            c = '%s %s %s' % (expr(), rng.choice(['=', '!=', 'in', 'not in', 'within']), values(n))
        elif k == 1:
            c = ' and '.join('%s != %s' % (expr(), values(1)) for _ in range(n))
        elif k == 2:
            c = ' or '.join('%s = %s' % (expr(), values(1)) for _ in range(n))
        elif k == 3:
            # few different ones, again and again
            few = ['%s %s %s' % (expr(), rng.choice(['=', '!=', 'in', 'within']), values(1)) for _ in range(3)]
            c = few[0]
            for _ in range(n):
                c += rng.choice([' and ', ' and ', ' or ']) + rng.choice(few)
        else:
            c = ' or '.join('%s = %s and %s != %s' % (expr(), values(2), expr(), values(2)) for _ in range(n // 2))
        sets.append({rng.choice(['zero', 'one', 'two', 'few', 'many']): c})
    return sets


SAMPLES = ['', ' @integer 1, 2~5, 100, …', ' @integer 0 @decimal 0.0~1.5, 10.0, …', ' @decimal 1.0, 1.00, 1.000', ' @integer 3~10, 103~110, 1003, … @decimal 3.0, 4.0']


def codes():
    for n in (2, 3):
        for t in __import__('itertools').product(string.ascii_lowercase, repeat=n):
            c = ''.join(t)
            if c not in ('und', 'root'):
                yield c


def c14(pid):
    chk = Check(pid, 'model_checking')
    rng = random.Random(SEED)
    sets = rulesets(chk, rng)
    rng.shuffle(sets)
    build_harness()
    libs = Libs(chk)
    ncrates = 16 if THOROUGH else 8
    where = {}
    for g in range(ncrates):
        name, tables = 'g%d' % g, {}
        for j, ty in enumerate(('cardinal', 'ordinal')):
            mine = sets[2 * g + j::2 * ncrates]
            tables[ty] = dict(zip(codes(), mine))
        full = {}
        for ty, t in tables.items():
            full[ty] = {}
            for loc, rules in t.items():
                r = {c: x + rng.choice(SAMPLES) for c, x in rules.items()}
                if rng.random() < .9:
                    r['other'] = rng.choice(SAMPLES) if rng.random() < .95 else 'i = 1 and v = 0 @integer 1'
                full[ty][loc] = r
        if g % 2:
            inputs = [data_file(os.path.join(libs.ws, '%s-%s.json' % (name, ty)), 37, rng, **{ty: full[ty]}) for ty in ('ordinal', 'cardinal')]
        else:
            inputs = [data_file(os.path.join(libs.ws, name + '.json'), 37, rng, **full)]
        if libs.generated(name, inputs, 'rule sets of the specification'):
            where[name] = tables
    if chk.violations or not libs.build():
        libs_done(libs)
        return chk.finish()
    lines, meta = [], []
    for name, tables in where.items():
        for ty, t in tables.items():
            for loc, rules in t.items():
                xs = numbers(rng, list(rules.values()), 40 if THOROUGH else 28)
                lines.append('\t'.join(['S', name, ty, loc, ' '.join(xs)]))
                meta.append((name, ty, loc, rules, xs))
    ans = libs.query(lines)
    libs_done(libs)
    if ans is None:
        return chk.finish()
    trace = os.path.join(chk.work, 'trace.ndjson')
    n = 0
    with open(trace, 'w') as f:
        for (name, ty, loc, rules, xs), a in zip(meta, ans):
            if a == 'PANIC':
                chk.violation('the generated library panics', {'library': name, 'type': ty, 'locale': loc, 'rules': rules, 'numbers': xs})
                continue
            n += len(xs)
            f.write(json.dumps({'k': 'rules', 'lib': name, 'ty': ty, 'loc': loc, 'rules': rules, 'xs': [[x, CATS[c]] for x, c in zip(xs, a)]}) + '\n')
    events, bad, known = judge(chk, 'GenTrace', trace)
    chk.cov.update(locales=len(meta), libraries=len(where), select_calls=n, known_finding_events=len(known))
    chk.sample(*[dict(e, xs=e['xs'][:4]) for e in events[::max(1, len(events) // 6)]])
    if known:
        for f in chk.findings:
            chk.known(f['what'])
    chk.assumptions += ['rustc and rustfmt', 'rule values below 2^53, moduli not zero']
    return chk.finish()


def libs_done(libs):
    libs.clean() if hasattr(libs, 'target') else None


# ---- C15
LANGS2 = ['en', 'pt', 'sr', 'zh', 'ar', 'az', 'de', 'ku', 'mn', 'aa', 'zz', 'za']
LANGS3 = ['fil', 'haw', 'gsw', 'eng', 'enm', 'zha', 'aab', 'ptt']
LONG = ['enabc', 'klingon', 'zzzzz', 'portugal']
SCRIPTS = ['Latn', 'Cyrl', 'Arab', 'Hans', 'Hant', 'Aaaa', 'Zzzz']
REGIONS = ['US', 'GB', 'PT', 'BR', 'AA', 'ZZ', '419', '001', '999', '150']


def random_key(rng, long_ok=True):
    lang = rng.choice(LANGS2 + LANGS3 + (LONG if long_ok else []) +
                      [''.join(rng.choice(string.ascii_lowercase) for _ in range(rng.choice([2, 3])))])
    if lang in ('und',):
        lang = 'unc'
    k = lang
    if rng.random() < .4:
        k += '-' + rng.choice(SCRIPTS + [''.join([rng.choice(string.ascii_uppercase)] + [rng.choice(string.ascii_lowercase) for _ in range(3)])])
    if rng.random() < .5:
        k += '-' + rng.choice(REGIONS + [rng.choice(string.ascii_uppercase) + rng.choice(string.ascii_uppercase), '%03d' % rng.randrange(1000)])
    return k


def respell(rng, key):
    if key == 'root':
        return key
    p = [rng.choice([x, x.lower(), x.upper(), x.title()]) for x in key.split('-')]
    return rng.choice('-_').join(p)


def c15(pid):
    chk = Check(pid, 'model_checking')
    rng = random.Random(SEED)
    out = model(chk, 'TableModel')
    small = [x.split() for x in re.findall(r'^"KEYS (.*)"$', out, re.M)]
    if len(small) < 30:
        raise ToolError('key sets missing')
    chk.cov['spec_keysets'] = len(small)
    big = []
    for n in ([5, 17, 64, 100, 255, 256, 257, 700, 1100, 2500] if THOROUGH else [5, 64, 257, 400, 1200]) * (3 if THOROUGH else 1):
        ks = set()
        while len(ks) < n:
            ks.add(random_key(rng))
        big.append(sorted(ks))
    # families: languages whose locales agree in one part
    for _ in range(24 if THOROUGH else 6):
        ks = set()
        for _ in range(rng.choice([4, 8, 12])):
            lang, sc, rg = rng.choice(LANGS2 + LANGS3 + LONG), rng.choice(SCRIPTS), rng.choice(REGIONS)
            n = rng.choice([2, 3, 4, 6])
            k = rng.randrange(6)
            if k == 0:
                ks |= {'%s-%s-%s' % (lang, sc, r) for r in rng.sample(REGIONS, n)}
            elif k == 1:
                ks |= {'%s-%s-%s' % (lang, x, rg) for x in rng.sample(SCRIPTS, n)}
            elif k == 2:
                ks |= {'%s-%s' % (lang, r) for r in rng.sample(REGIONS, n)}
            elif k == 3:
                ks |= {'%s-%s' % (lang, x) for x in rng.sample(SCRIPTS, n)}
            elif k == 4:
                ks |= {'%s-%s-%s' % (x, sc, rg) for x in rng.sample(LANGS2 + LANGS3, n)}
            else:
                ks |= {lang, '%s-%s' % (lang, sc), '%s-%s' % (lang, rg), '%s-%s-%s' % (lang, sc, rg)}
        # some of them in part
        seen = {}
        for x in sorted(ks):
            seen.setdefault(x.split('-')[0], []).append(x)
        big.append(sorted(x for l in seen.values() for x in (l if rng.random() < .5 else l[:rng.randrange(1, len(l) + 1)])))
    for n in (3, 5):
        big.append(['%s-%s-%s' % (a, b, c) for a, b in (('sr', 'Latn'), ('enabc', 'Cyrl'), ('fil', 'Arab')) for c in rng.sample(REGIONS, n)])
        big.append(['%s-%s-%s' % (a, c, b) for a, b in (('sr', 'US'), ('enabc', '419'), ('fil', 'PT')) for c in rng.sample(SCRIPTS, n)])
        big.append(['%s-%s' % (a, c) for a in ('sr', 'klingon', 'haw') for c in rng.sample(SCRIPTS, n)])
        big.append(['%s-%s' % (a, c) for a in ('sr', 'klingon', 'haw') for c in rng.sample(REGIONS, n)])
    sets = [list(x) for x in small + big]
    if len(sets) % 2:
        sets.append(['fr'])
    build_harness()
    libs = Libs(chk)
    where = {}
    rng.shuffle(sets)
    for g in range(0, len(sets), 2):
        name, full = 'g%d' % (g // 2), {}
        for ty, keys in (('cardinal', sets[g]), ('ordinal', sets[g + 1])):
            keys = list(keys)
            rng.shuffle(keys)
            full[ty] = {}
            for k, key in enumerate(keys):
                if k == len(keys) // 2 and rng.random() < .7:
                    full[ty]['root'] = {'other': ' @integer 0~15'}
                full[ty][key] = {rng.choice(['zero', 'one', 'two', 'few', 'many']): 'i = %d' % (k + 1), 'other': ' @integer 0'}
                kind = rng.random()
                if kind < .1:
                    full[ty][key] = {'other': ' @integer 0'}
                elif kind < .13:
                    full[ty][key] = {}
                elif kind < .35:
                    # the same rules for many locales, as in CLDR
                    full[ty][key] = {'one': 'i = 1', 'other': ' @integer 0'}
            if not keys and rng.random() < .5:
                full[ty]['root'] = {'other': ''}
        version = rng.choice([37, 1, 38, 100])
        # a few keys in another spelling of the same identifier
        written = {ty: {respell(rng, k) if rng.random() < .1 else k: r for k, r in t.items()} for ty, t in full.items()}
        inputs = [data_file(os.path.join(libs.ws, name + '.json'), version, rng, **written)]
        if libs.generated(name, inputs, 'locale sets'):
            where[name] = (full, version)
    if chk.violations or not libs.build():
        libs_done(libs)
        return chk.finish()
    lines, meta = [], []
    for name, (full, version) in where.items():
        lines.append('\t'.join(['V', name, 'cardinal']))
        meta.append(('version', name, version))
        for ty, t in full.items():
            keys = [k for k in t if k != 'root']
            lines.append('\t'.join(['L', name, ty]))
            meta.append(('list', name, ty, list(t)))
            others = set(k for o, _ in list(where.values())[:12] for q in o.values() for k in list(q)[:12])
            for k in keys[:60]:
                p = k.split('-')
                others |= {p[0], p[0] + '-XX', p[0] + '-Abcd', '-'.join(p[:2]), '-'.join(p + ['valencia']), p[0] + '-419', p[0] + '-' + p[-1]}
                if len(p) == 3:
                    others |= {p[0] + '-' + p[2]}
                others |= {'und-' + x for x in p[1:]}
            others |= {random_key(rng) for _ in range(40)} | {'und'}
            others = sorted(x for x in others if x != 'root' and not re.search(r'-(\w{4}|\w{2,3})-\1$', x) and re.fullmatch(
                r'([a-z]{2,3}|[a-z]{5,8})(-[A-Z][a-z]{3})?(-([A-Z]{2}|[0-9]{3}))?(-[a-z]{5,8})?', x))
            rng.shuffle(others)
            for k in keys + [o for o in others if o not in t][:200]:
                lines.append('\t'.join(['C', name, ty, k]))
                meta.append(('make', name, ty, k, 1 if k in t else 0))
            for j, k in enumerate(keys):
                xs = [str(x) for x in sorted({j, j + 1, j + 2, 0, len(keys), rng.randrange(len(keys) + 2)})] + ['%d.5' % (j + 1)]
                lines.append('\t'.join(['S', name, ty, k, ' '.join(xs)]))
                meta.append(('rules', name, ty, k, t[k], xs))
    ans = libs.query(lines)
    libs_done(libs)
    if ans is None:
        return chk.finish()
    trace = os.path.join(chk.work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for m, a in zip(meta, ans):
            e = {'k': m[0], 'lib': m[1]}
            if m[0] == 'version':
                e.update(want=str(m[2]), got=a)
            elif m[0] == 'list':
                e.update(ty=m[2], keys=m[3], locs=[] if a == '' else a.split(' '))
            elif m[0] == 'make':
                e.update({'ty': m[2], 'id': m[3], 'in': m[4], 'ok': a.split(' ')[0], 'got': a.split(' ')[-1]})
            else:
                xs = m[5]
                e.update(ty=m[2], loc=m[3], rules=m[4], xs=[[x, CATS[c]] for x, c in zip(xs, a if a != 'PANIC' else 'P' * len(xs))])
            f.write(json.dumps(e) + '\n')
    events, bad, known = judge(chk, 'GenTrace', trace)
    chk.cov.update(libraries=len(where), calls=len(meta))
    spread(chk, events)
    # a key without a language: recorded finding
    probe = Libs(chk, 'und')
    t = {'en': {'one': 'i = 1', 'other': ''}, 'und-Latn': {'one': 'i = 2', 'other': ''}}
    if probe.generated('u0', [data_file(os.path.join(probe.ws, 'u0.json'), 37, cardinal=t, ordinal=t)], 'a key without a language'):
        if not probe.build(report=False):
            if chk.findings:
                for fd in chk.findings:
                    chk.known(fd['what'])
            else:
                chk.violation('the generated code does not compile', {'keys': sorted(t), 'errors': probe.errors})
        libs_done(probe)
    return chk.finish()


def spread(chk, events, n=6):
    chk.sample(*[events[k] for k in range(0, len(events), max(1, len(events) // n))])


# ---- C17
def c17(pid):
    chk = Check(pid, 'model_checking')
    rec = os.path.join(chk.work, 'recipe.json')
    model(chk, 'CldrModel')
    build_harness()
    libs = Libs(chk)
    d = os.path.join(REPO, 'intl_pluralrules', 'cldr_data')
    inputs = [os.path.join(d, 'cldr_pluralrules_cardinals.json'), os.path.join(d, 'cldr_pluralrules_ordinals.json')]
    libs.shipped('shipped')
    if not libs.generated('again', inputs, 'the shipped data') or not libs.build():
        libs_done(libs)
        return chk.finish()
    rng = random.Random(SEED)
    ints = set(range(2000 if THOROUGH else 1250)) | {10 ** k + j for k in range(3, 19) for j in (-1, 0, 1, 2, 11)} | {2 ** k + j for k in range(10, 64) for j in (-1, 0, 1)}
    for name in ('shipped', 'again'):
        src = open(os.path.join(libs.ws, name, 'src', 'rules.rs')).read()
        for v in set(re.findall(r'\b\d{3,19}\b(?!u64)', src)):
            ints |= {max(0, int(v) + j) for j in (-1, 0, 1)} | {int(v) * 3, int(v) * 7 + 1}
    ints |= {rng.randrange(2 ** rng.randrange(10, 64)) for _ in range(2000 if THOROUGH else 300)}
    xs = [str(x) for x in sorted(ints) if x < 2 ** 64]
    fr = ['0', '00', '1', '5', '10', '01', '2', '3', '4', '6', '9', '11', '12', '21', '22', '000', '100', '50', '13', '101', '02', '0000001', '123456']
    for i in list(range(0, 30)) + [41, 51, 61, 71, 81, 91, 99, 100, 101, 102, 103, 104, 105, 110, 111, 112, 119, 120, 121, 200, 201, 1000, 1001, 40000, 1000000, 1000001]:
        xs += ['%d.%s' % (i, f) for f in fr]
        # numbers that round to a whole one, or nearly so
        xs += ['%d.%s' % (i, f) for f in ('9' * 15, '9' * 16, '9' * 17, '9' * 19, '0' * 14 + '1', '0' * 15 + '1', '0' * 16 + '1', '0' * 18 + '1', '0' * 19, '9999999', '00000001')]
        if i < 12 or i == 100:
            xs += ['%d.%s' % (i, f) for f in ('256', '65536', '4294967296', '42949672960', '9007199254740993', '18446744073709551615', '1844674407370955161', '10000000000', '99990', '0' * 300, '5' + '0' * 300)
                   if len(f) < 20 or int(f) < 2 ** 64]
    q = [('V', n, ty, '') for ty in ('cardinal',) for n in ('shipped', 'again')] + [('L', n, ty, '') for ty in ('cardinal', 'ordinal') for n in ('shipped', 'again')]
    ans = libs.query(['\t'.join(x) for x in q])
    if ans is None:
        libs_done(libs)
        return chk.finish()
    ev = [{'k': 'version', 'ty': '', 'loc': '', 'a': ans[0], 'b': ans[1], 'wa': [], 'wb': []}]
    locs = {}
    for j, ty in ((2, 'cardinal'), (4, 'ordinal')):
        locs[ty] = sorted(set(ans[j].split()) | set(ans[j + 1].split()))
        ev.append({'k': 'list', 'ty': ty, 'loc': '', 'a': '', 'b': '', 'wa': ans[j].split(), 'wb': ans[j + 1].split()})
    lines, meta = [], []
    for ty in locs:
        for loc in locs[ty]:
            for lo in range(0, len(xs), 500):
                part = xs[lo:lo + 500]
                for n in ('shipped', 'again'):
                    lines.append('\t'.join(['S', n, ty, loc, ' '.join(part)]))
                meta.append((ty, loc, part))
    ans = libs.query(lines)
    libs_done(libs)
    if ans is None:
        return chk.finish()
    for k, (ty, loc, part) in enumerate(meta):
        a, b = ans[2 * k], ans[2 * k + 1]
        e = {'k': 'select', 'ty': ty, 'loc': loc, 'a': a, 'b': b, 'wa': [part[0], part[-1]], 'wb': []}
        if a != b and len(a) == len(b) == len(part):
            e['wb'] = [[x, CATS[p], CATS[r]] for x, p, r in zip(part, a, b) if p != r][:5]
        ev.append(e)
    trace = os.path.join(chk.work, 'trace.ndjson')
    with open(trace, 'w') as f:
        for e in ev:
            f.write(json.dumps(e) + '\n')
    events, bad, known = judge(chk, 'SameTrace', trace)
    chk.cov.update(select_calls=2 * sum(len(m[2]) for m in meta), numbers=len(xs), locales=sum(len(v) for v in locs.values()))
    chk.sample(*[dict(e, a=e['a'][:60], b=e['b'][:60], wa=e['wa'][:5], wb=e['wb'][:5]) for e in events[::max(1, len(events) // 5)]])
    return chk.finish()
