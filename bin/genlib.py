"""Generated libraries: the generator command (built from /repo) is run on data sets, the rule tables it
writes replace src/rules.rs in copies of /repo/intl_pluralrules, and those copies are compiled and run."""
import json, os, re, shutil, subprocess
from vlib import *

RUNNER = r'''
use std::io::{BufRead, Write};
macro_rules! handler {
    ($f:ident, $g:ident) => {
        fn $f(p: &[&str], cache: &mut Option<(String, Box<dyn Fn(&str) -> char>)>) -> String {
            use $g::{PluralCategory, PluralRuleType, PluralRules};
            let ty = match p[2] {
                "cardinal" => PluralRuleType::CARDINAL,
                _ => PluralRuleType::ORDINAL,
            };
            let make = |l: &str| {
                let id: unic_langid::LanguageIdentifier = l.parse().expect("identifier");
                PluralRules::create(id, ty)
            };
            match p[0] {
                "V" => $g::CLDR_VERSION.to_string(),
                "L" => PluralRules::get_locales(ty).iter().map(|l| l.to_string()).collect::<Vec<_>>().join(" "),
                "C" => match make(p[3]) {
                    Ok(r) => format!("ok {}", r.get_locale()),
                    Err(_) => "err".to_string(),
                },
                "S" => {
                    let key = p[..4].join("\t");
                    if cache.as_ref().map(|c| &c.0) != Some(&key) {
                        let f: Box<dyn Fn(&str) -> char> = match make(p[3]) {
                            Err(_) => Box::new(|_| 'E'),
                            Ok(r) => Box::new(move |x| match r.select(x) {
                                Ok(PluralCategory::ZERO) => 'z',
                                Ok(PluralCategory::ONE) => 'o',
                                Ok(PluralCategory::TWO) => 't',
                                Ok(PluralCategory::FEW) => 'f',
                                Ok(PluralCategory::MANY) => 'm',
                                Ok(PluralCategory::OTHER) => 'x',
                                Err(_) => 'e',
                            }),
                        };
                        *cache = Some((key, f));
                    }
                    let f = &cache.as_ref().unwrap().1;
                    p[4].split(' ').map(|x| f(x)).collect()
                }
                _ => panic!("command"),
            }
        }
    };
}
HANDLERS
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut cache = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split('\t').collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match p[1] {
            ARMS
            _ => "NOLIB".to_string(),
        }));
        let r = match r { Ok(r) => r, Err(_) => { cache = None; "PANIC".to_string() } };
        writeln!(out, "{}", r).unwrap();
    }
    writeln!(out, "END").unwrap();
}
'''
CATS = {'z': 'zero', 'o': 'one', 't': 'two', 'f': 'few', 'm': 'many', 'x': 'other', 'e': 'error', 'E': 'none', 'P': 'panic'}


def cli():
    return os.path.join(TARGET, 'release', 'make_pluralrules_cli')


def content(version, rng=None, **types):
    """the text of a data file; types: cardinal= / ordinal= {locale: {category: text}}.  With rng, the text varies in what
    does not matter: order of the members, members the generator does not use, layout, escapes"""
    ver = {'_unicodeVersion': '13.0.0', '_cldrVersion': str(version)}
    sup = {'version': ver}
    for ty, locs in types.items():
        sup['plurals-type-' + ty] = {loc: {'pluralRule-count-' + c: t for c, t in rules.items()} for loc, rules in locs.items()}
    top = {'supplemental': sup}
    if rng is None:
        return json.dumps(top, ensure_ascii=False)
    if rng.random() < .3:
        ver['_number'] = '$Revision: 13898 $'
    if rng.random() < .15:
        ver['_date'] = 'today'
    if rng.random() < .15:
        sup['generation'] = {'_date': '$Date$'}
    if rng.random() < .1:
        sup['plurals-type-range'] = {'en': {'pluralRange-start-one-end-other': 'other'}}
    if rng.random() < .1:
        top['main'] = {}

    def mixed(x):
        if not isinstance(x, dict):
            return x
        items = [(k, mixed(v)) for k, v in x.items()]
        rng.shuffle(items)
        return dict(items)
    if rng.random() < .6:
        top = mixed(top)
    return json.dumps(top, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 2, '\t'])) + rng.choice(['', '\n', '\r\n', '  \n'])


def data_file(path, version, rng=None, **types):
    with open(path, 'w') as f:
        f.write(content(version, rng, **types))
    return path


def run_cli(inputs, output, cwd, extra=(), timeout=120):
    e = dict(os.environ, **CARGO_ENV)
    try:
        return subprocess.run([cli(), '-i'] + inputs + ['-o', output] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              universal_newlines=True, errors='replace', cwd=cwd, env=e, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None


class Libs:
    """A set of libraries regenerated from data sets, compiled into one runner."""

    def __init__(self, chk, name='libs'):
        self.chk, self.names = chk, []
        self.ws = os.path.join(chk.work, name)
        os.makedirs(os.path.join(self.ws, 'runner', 'src'))
        toml = open(os.path.join(REPO, 'intl_pluralrules', 'Cargo.toml')).read()
        m = re.search(r'^\[dependencies\]\n(.*?)(?=^\[|\Z)', toml, re.M | re.S)
        ed = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
        self.deps, self.edition = m.group(1) if m else '', ed.group(1) if ed else '2018'

    def crate(self, name):
        d = os.path.join(self.ws, name)
        shutil.copytree(os.path.join(REPO, 'intl_pluralrules', 'src'), os.path.join(d, 'src'))
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "%s"\n[lib]\ndoctest = false\n[dependencies]\n%s\n' % (name, self.edition, self.deps))
        self.names.append(name)
        return d

    def shipped(self, name):
        self.crate(name)

    def generated(self, name, inputs, what):
        """runs the generator; False and a violation when it fails on these (well-formed) data"""
        d = self.crate(name)
        out = os.path.join(d, 'src', 'rules.rs')
        if not os.path.exists(out) and os.path.exists(os.path.join(d, 'src', 'rules', 'mod.rs')):
            out = os.path.join(d, 'src', 'rules', 'mod.rs')
        os.remove(out)
        p = run_cli(inputs, out, self.ws)
        if p is None or p.returncode != 0 or not os.path.exists(out):
            self.names.remove(name)
            shutil.rmtree(d)
            self.chk.violation('the generator does not finish' if p is None else 'the generator refuses well-formed data',
                               {'inputs': inputs, 'what': what, 'stderr': '' if p is None else p.stderr[-800:]})
            return False
        return True

    def build(self, report=True):
        """compiles; returns True, or False when some library does not compile (a violation when report)"""
        hs = '\n'.join('handler!(h_%s, %s);' % (n, n) for n in self.names)
        arms = '\n'.join('"%s" => h_%s(&p, &mut cache),' % (n, n) for n in self.names)
        with open(os.path.join(self.ws, 'runner', 'src', 'main.rs'), 'w') as f:
            f.write(RUNNER.replace('HANDLERS', hs).replace('ARMS', arms))
        with open(os.path.join(self.ws, 'runner', 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "genrunner"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nunic-langid = "0.9"\n' +
                    ''.join('%s = { path = "../%s" }\n' % (n, n) for n in self.names))
        with open(os.path.join(self.ws, 'Cargo.toml'), 'w') as f:
            f.write('[workspace]\nresolver = "1"\nmembers = [%s]\n[profile.dev]\ndebug = false\nincremental = false\n' % ', '.join('"%s"' % n for n in ['runner'] + self.names))
        shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock'), os.path.join(self.ws, 'Cargo.lock'))
        self.target = os.path.join(self.ws, 'target')
        p = cargo(['build', '--offline', '-p', 'genrunner', '--keep-going'], self.ws, self.target, timeout=700)
        if p.returncode != 0:
            failed = sorted(set(re.findall(r'could not compile `(\w+)`', p.stderr)))
            if not failed or any(n not in self.names for n in failed):
                raise ToolError('generated libraries do not build:\n' + p.stderr[-3000:])
            errs = re.findall(r'^error.*(?:\n.*){0,8}', p.stderr, re.M)
            self.errors = {n: errs[:2] for n in failed}
            if report:
                for n in failed:
                    self.chk.violation('the generated code does not compile', {'library': n, 'rules': os.path.join(self.ws, n, 'src', 'rules.rs'), 'errors': errs[:2]})
            return False
        return True

    def query(self, lines, timeout=600):
        """one answer per line; None after a violation"""
        exe = os.path.join(self.target, 'debug', 'genrunner')
        p = run_in(exe, '\n'.join(lines) + '\n', timeout, self.ws)
        if p is None:
            self.chk.violation('the generated library does not return', {})
            return None
        out = p.stdout.split('\n')
        if p.returncode != 0 or len(out) < len(lines) + 2 or out[len(lines)] != 'END':
            self.chk.violation('the generated library ends the process', {'rc': p.returncode, 'after': lines[max(0, len(out) - 3):][:3]})
            return None
        return out[:len(lines)]

    def clean(self):
        shutil.rmtree(self.target, ignore_errors=True)


def run_in(exe, text, timeout, cwd):
    try:
        return subprocess.run([exe], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                              errors='replace', cwd=cwd, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None


# ---- rule sets and numbers
def cldr_style(toks):
    """tokens to CLDR's usual spelling"""
    s = ''
    for k, t in enumerate(toks):
        if k and t not in ('..', ',') and toks[k - 1] not in ('..', ','):
            s += ' '
        s += t
    return s


def numbers(rng, texts, count):
    """decimal texts around everything the rule texts mention"""
    vals, mods = set(), set()
    for t in texts:
        for m in re.findall(r'(?:%|mod) (\d+)', t):
            mods.add(int(m))
        for v in re.findall(r'\d+', re.sub(r'(?:%|mod) \d+', '', t)):
            vals.add(int(v))
    ints = {0, 1}
    for v in vals:
        ints |= {v, v + 1, max(0, v - 1)}
        for m in mods:
            if m:
                ints |= {v + m, v + m * rng.randrange(2, 50), v % m + m, v * m + v}
    prod = 1
    for m in mods:
        prod *= max(1, m)
    ints |= {rng.randrange(0, min(prod * 3, 2 ** 60)) for _ in range(count // 2)}
    # residue combinations: each modulus gets one of the values mentioned
    if 1 < len(mods) and all(mods):
        for _ in range(count):
            x, step = 0, 1
            for m in mods:
                want = rng.choice(sorted(vals)) % m
                for _ in range(m):
                    if x % m == want:
                        break
                    x += step
                step *= m
            ints.add(x)
    ints = [x for x in ints if x < 2 ** 64]
    rng.shuffle(ints)
    frac = re.search(r'\b[nvwft]\b', ' '.join(texts)) is not None
    out = [str(x) for x in ints[:count]]
    if frac:
        # fractions: f, t equal to values mentioned; v, w equal to values mentioned
        fs = ['0', '00', '5', '50', '05']
        for v in sorted(vals):
            fs += [str(v), str(v) + '0', '0' + str(v), str(v + 1)]
            for m in mods:
                fs += [str(v % m + m) if m else '1', str(v + m)]
            if 0 < v <= 13:
                fs += ['0' * v, '1' * v, '1' * max(1, v - 1) + '0', '1' * v + '0']
        fs = [f for f in fs if len(f) <= 14]
        n = len(out)
        small = [str(x) for x in ints if x < 1000] or ['0']
        for _ in range(n * 2):
            i = rng.choice(small)
            f = rng.choice(fs)
            if len(i) + len(f) <= 15:
                out.append(i + '.' + f)
    return sorted(set(out))


def instantiate(rng, shape):
    """numbers for the number tokens of a relation shape"""
    toks = []
    w = shape.split()
    for k, t in enumerate(w):
        if t != '7':
            toks.append(t)
        elif w[k - 1] == '%':
            toks.append(str(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 11, 12, 16, 20, 25, 60, 64, 99, 100, 100, 100, 1000])))
        elif w[k - 1] == '..':
            lo = int(toks[-2])
            toks.append(str(lo + rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < .95 else max(0, lo - 1)))
        else:
            toks.append(str(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 19, 20, 99, 100, 1000000] + ([2 ** 40 + 7, 2 ** 53 - 1] if rng.random() < .1 else []))))
    if '%' in toks and rng.random() < .3:
        toks[toks.index('%')] = 'mod'
    return cldr_style(toks)
